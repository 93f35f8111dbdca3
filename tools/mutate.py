#!/usr/bin/env python3
"""Development tool (no check uses it): mutate the library line by line and list the mutants that compile, pass the
tests and are not reported by the checks of the file's properties.
usage: mutate.py OUT.jsonl [-j N] [--files a.hh,b.hh] [--every K] [--rare | --stmt]"""
import sys, os, re, json, subprocess, shutil, random, threading, queue, time
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R='/repo'
PROPS={
'lockfree_fifo_spsc.hh':'C02 C01','lockfree_fifo_spsc_dyn.hh':'C02 C01','thread_safe_pool.hh':'C03 C13','filtered_interp_array.hh':'C04',
'wear_level.hh':'C05 C06','doublebuf_stream.hh':'C07','circular_buffer.hh':'C08','circular_buffer_opt.hh':'C08','circular_buffer_ext.hh':'C09','circular_buffer_block.hh':'C09 C08',
'circular_stack.hh':'C10','fixed_vector.hh':'C11','seq_map.hh':'C12','sequential_map.hh':'C12','pool.hh':'C13','monotonic_allocator.hh':'C14','aligned_allocator.hh':'C14',
'padded_aligned.hh':'C14 C42','static_string.hh':'C15','input_output_buffer.hh':'C16','compact_binary_parser.hh':'C18 C17','compact_binary_serializer.hh':'C19 C17','compact_binary_writer.hh':'C19 C17',
'int_to_str.hh':'C20','int_to_str.cc':'C20','print.hh':'C21','version_tools.hh':'C22','string_util.hh':'C23','string_compare.hh':'C23','contains_word.hh':'C23',
'math.hh':'C24 C25','cortex_math.hh':'C24','math_tables.hh':'C25','interp_array.hh':'C26','lookup_table.hh':'C26','lut.hh':'C26','oscs.hh':'C27','filter.hh':'C28','interp_param.hh':'C29',
'calibrator.hh':'C30','voct_calibrator.hh':'C30','audio_frame.hh':'C31','colors.hh':'C32 C43','colors_rgb565.hh':'C32','hsv.hh':'C32','schmitt_trigger.hh':'C33','analyzed_signal.hh':'C33',
'debouncer.hh':'C34','debouncer_compact.hh':'C34','change_detector.hh':'C35','edge_detector.hh':'C35','poll_change.hh':'C35','poll_event.hh':'C35','quadrature_encoder.hh':'C36','rotary_motion.hh':'C36',
'parameter.hh':'C37','callable.hh':'C38','zip.hh':'C39','countzip.hh':'C39','iterator_helpers.hh':'C39','partition.hh':'C40','geometry.hh':'C41','byte_block.hh':'C42','bitfield.hh':'C42',
'big_buffer.hh':'C42','smallest_integer.hh':'C42','soft_neon.hh':'C42','rgbled.hh':'C43','mem_test.hh':'C44'}
SUB=[(r'(?<![<\-=])<=(?!>)','<'),(r'(?<![<>])>=','>'),(r'(?<=[\w\)\]]) < (?=[\w\(\-])',' <= '),(r'(?<=[\w\)\]]) > (?=[\w\(\-])',' >= '),(r'==','!='),(r'!=','=='),
(r'&&','||'),(r'\|\|','&&'),(r' \+ ',' - '),(r' - ',' + '),(r' \* ',' / '),(r' % ',' / '),(r' / ',' * '),(r'\+\+','--'),(r'(?<!-)--','++'),(r'\+=','-='),(r'-=','+='),
(r' << ',' >> '),(r' >> ',' << '),(r' & ',' | '),(r' \| ',' & '),(r' \^ ',' | '),(r'\btrue\b','false'),(r'\bfalse\b','true'),(r'!(?=[\w\(])',''),
(r'memory_order_acquire','memory_order_relaxed'),(r'memory_order_release','memory_order_relaxed'),(r'memory_order_acq_rel','memory_order_relaxed'),
(r'\bsize_t\b','uint8_t'),(r'\bsize_t\b','uint16_t'),(r'\buint32_t\b','uint16_t'),(r'\bunsigned\b','uint16_t'),(r'\bint32_t\b','int16_t'),(r'\buint16_t\b','uint8_t'),(r'\bfloat\b','int'),
(r'\bint\b','unsigned'),(r'\bstatic_cast<uint64_t>',''),(r'\bstd::move\b',''),(r'~',''),(r'\bbreak;',';'),(r'\bcontinue;',';'),(r' \? ([^:]+) : ([^;]+)',r' ? \2 : \1'),
(r'\bmin\b','max'),(r'\bmax\b','min'),(r'\bbegin\b','end'),(r'\bpush_back\b','emplace_back'),(r'\belse if\b','if')]
RARE=['0','255','256','65535','65536','0x7fffffff','0x80000000u','0xffffffffu']
OPND=r'(?:\([^()]*\)|[\w\.]|->|::|\[[^\]]*\]|\([^()]*\))+'
LIT=r'[\d.f]+|true|false|default|nullptr|\*this|std::nullopt|\w+\{\}|m?_?max_?|0x[0-9A-Fa-f]+'
def rare_mutants(f):
    """conditions and amounts that are wrong for one boundary value only (one mutant per place, value by turns)"""
    s=open(f'{R}/util/{f}').read().split('\n'); out=[]; n=0
    for i,l in enumerate(s):
        code=l.split('//')[0]; t=code.strip()
        if not t or t.startswith(('#','static_assert','template','*','/*','namespace','using')): continue
        def add(new):
            nonlocal n
            out.append((i,l,new)); n+=1
        for m in re.finditer(rf'({OPND}) (<|>|<=|>=|==|!=) ({OPND})',code):
            if m[1].strip() in ('operator',): continue
            side=m[1] if n%2 or re.fullmatch(r'\d+',m[3]) else m[3]
            add(code[:m.start()]+f'(({m[0]}) != ({side} == {RARE[n%len(RARE)]}))'+code[m.end():])
        m=re.match(rf'^(\s*(?:if \(.*\) )?{OPND} (?:=|\+=|-=) )([^;{{}}"]+);\s*$',code)
        if m and not re.fullmatch(LIT,m[2]): add(f'{m[1]}({m[2]}) + (({m[2]}) == {RARE[n%len(RARE)]});')
        m=re.match(r'^(\s*return )([^;{}"]+);\s*$',code)
        if m and not re.fullmatch(LIT,m[2]): add(f'{m[1]}({m[2]}) + (({m[2]}) == {RARE[n%len(RARE)]});')
        m=re.search(r'\[([^\]]+)\]',code)
        if m and not re.match(r'[&=]|\s*$',m[1]) and '{' not in m[1]: add(code[:m.start()]+f'[({m[1]}) - (({m[1]}) == {RARE[n%len(RARE)]})]'+code[m.end():])
    return out
def stmt_mutants(f):
    """statements executed twice, in the other order, or once and for all (a local made static)"""
    s=open(f'{R}/util/{f}').read().split('\n'); out=[]
    def simple(l):
        t=l.split('//')[0].strip()
        return t.endswith(';') and '{' not in t and '}' not in t and t.count('(')==t.count(')') and not re.match(r'(return|using|static|typedef|friend|break|continue|#|static_assert|public|private|extern|case|for|struct|class)',t)
    depth=0
    for i,l in enumerate(s):
        if not simple(l) or not l.startswith('\t\t'): continue
        t=l.split('//')[0].rstrip(); b=t.strip()
        decl=re.match(r'(?:const |constexpr )*[\w:<>,\* &]+[ &\*]\w+(\s*=|\s*\{|;|\[)',b) and not re.match(r'[\w\.\[\]]+ (=|\+=|-=)',b)
        if decl and ('=' in b) and not b.startswith(('constexpr','const auto &','auto &')): out.append((i,l,t.replace(b,'static '+b)))
        if not decl and (re.search(r'\+\+|--|\+=|-=|<<=|>>=|\(',b)): out.append((i,l,t+' '+b))
        if i+1<len(s) and simple(s[i+1]) and not decl and not s[i-1].strip().endswith(')') : out.append((i,l,'@SWAP'))
    return out
def mutants(f):
    s=open(f'{R}/util/{f}').read().split('\n'); out=[]
    incomment=False
    for i,l in enumerate(s):
        t=l.strip()
        if incomment:
            incomment='*/' not in t; continue
        if t.startswith('/*') and '*/' not in t: incomment=True; continue
        code=l.split('//')[0]
        t=code.strip()
        if not t or t.startswith('#') or t.startswith('static_assert') or t in '{}' or t.startswith('namespace'): continue
        seen=set()
        def add(n):
            if n!=l and n not in seen: seen.add(n); out.append((i,l,n))
        for a,b in SUB:
            for m in re.finditer(a,code):
                try: rep=m.expand(b) if '\\' in b else b
                except Exception: rep=b
                add(code[:m.start()]+rep+code[m.end():])
        for m in re.finditer(r'(?<![\w\.])(\d+)(?![\w\.])',code):
            n=int(m[1])
            add(code[:m.start()]+str(n+1)+code[m.end():])
            if n>0: add(code[:m.start()]+str(n-1)+code[m.end():])
        m=re.match(r'^(\s*)((?:\*|\+\+|--)?[\w\.\->\[\]\(\):&,\s\+\-]*?(=|\+=|-=|\+\+|--|\()[^{}]*;)\s*$',code)
        if m and not re.match(r'\s*(return|using|static|const|auto|constexpr|struct|class|template|typedef|friend)\b',code) and not re.match(r'\s*[\w:<>]+\s+[\w]+(\s*=|\s*\{|;|\()',code):
            add(m[1]+';')
        m=re.match(r'^(\s*)(\}?\s*(?:else )?if) \((.*)\)(.*)$',code)
        if m and m[3].count('(')==m[3].count(')'):
            add(f'{m[1]}{m[2]} (({m[3]}) || true){m[4]}'); add(f'{m[1]}{m[2]} (({m[3]}) && false){m[4]}')
    return out
def main():
    a=sys.argv; outf=a[1]; J=int(a[a.index('-j')+1]) if '-j' in a else 4
    files=a[a.index('--files')+1].split(',') if '--files' in a else list(PROPS)
    every=int(a[a.index('--every')+1]) if '--every' in a else 1
    done=set()
    if os.path.exists(outf):
        for l in open(outf):
            r=json.loads(l); done.add((r['file'],r['line'],r['new']))
    work=[]
    for f in files:
        ms=(rare_mutants if '--rare' in a else stmt_mutants if '--stmt' in a else mutants)(f); random.Random(7).shuffle(ms)
        work+= [(f,)+m for m in ms[::every] if (f,m[0],m[2]) not in done]
    random.Random(3).shuffle(work)
    print(len(work),'mutants',flush=True)
    q=queue.Queue(); [q.put(w) for w in work]; lock=threading.Lock(); cnt={}
    def worker(k):
        cp=f'/tmp/mut{k}'; shutil.rmtree(cp,ignore_errors=True); shutil.copytree(R,cp,ignore=shutil.ignore_patterns('.git','_build'))
        while True:
            try: f,i,old,new=q.get_nowait()
            except queue.Empty: break
            p=f'{cp}/util/{f}'; src=open(f'{R}/util/{f}').read().split('\n'); src[i]=new
            if new=='@SWAP': src[i],src[i+1]=src[i+1],old
            open(p,'w').write('\n'.join(src))
            res=None; t0=time.time(); detail=''
            for prop in PROPS[f].split():
                try: r=subprocess.run(['python3',V+'/check.py',prop,'quick'],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,env=dict(os.environ,VP_REPO=cp,VP_NCPU='3',VP_SCRATCH='1'),timeout=900)
                except subprocess.TimeoutExpired: res='timeout:'+prop; break
                if r.returncode==1: res='killed:'+prop; break
                if r.returncode!=0:
                    res='nocompile' if 'harness build failed' in r.stdout else 'noanswer:'+prop; detail=r.stdout[-600:]; break
            if res is None or res=='nocompile' or res.startswith('noans') or res.startswith('timeout'):
                # do the tests accept it?
                try: t=subprocess.run('make -C tests -j3 build/runtests >/dev/null 2>/tmp/mut%d.err && timeout 60 tests/build/runtests >/dev/null 2>&1'%k,shell=True,cwd=cp,timeout=600); ok=t.returncode==0
                except subprocess.TimeoutExpired: ok=False
                if res is None: res='SURVIVED' if ok else 'tests-kill'
                elif ok: res=res.upper()
            open(p,'w').write(open(f'{R}/util/{f}').read())
            with lock:
                cnt[res.split(':')[0]]=cnt.get(res.split(':')[0],0)+1
                open(outf,'a').write(json.dumps(dict(file=f,line=i,old=old,new=new,res=res,t=round(time.time()-t0,1),detail=detail if res.isupper() or res.startswith('NO') else ''))+'\n')
                if sum(cnt.values())%50==0: print(time.strftime('%H:%M'),cnt,q.qsize(),flush=True)
        shutil.rmtree(cp,ignore_errors=True)
    ts=[threading.Thread(target=worker,args=(k,)) for k in range(J)]
    [t.start() for t in ts]; [t.join() for t in ts]
    print(cnt)
main()
