// C19: writing into a buffer of any size never touches anything outside it and still reports the size needed.
#include "cbf.hh"
using namespace cbf;

template<class K, class S, unsigned MaxDepth>
void run(mc::Ctx &c, const Shape &sh) {
	std::vector<Node> doc;
	int left = sh.budget;
	uint32_t serial = 0;
	gen(c, sh, left, 0, doc, serial);
	std::vector<size_t> deep;
	auto ref = encode<K, S>(doc, 0, int(MaxDepth), &deep);
	std::vector<bool> open(ref.size());
	for (auto i : deep)
		open[i] = true;
	if (c.tracing)
		c.log("document: %s  -> %s", show(doc).c_str(), hex(ref).c_str());
	if (!doc.empty())
		c.nontrivial();
	auto d = [&](auto &x) { describe<K>(x, doc); };
	size_t step = ref.size() > 100 ? 13 : 1;
	for (size_t n = 0; n <= ref.size() + 2; n += step) {
		size_t m = std::min(n, ref.size());
		{
			Block b{n};
			CompactBinaryWriter<K, S, MaxDepth> w{b.span()};
			if (n % 3 == 0)
				w.end_object(); // nothing to end
			write<K>(w, doc);
			if (n % 3 == 1)
				w.end_object();
			MC_CHECK(w.size() == ref.size(), "buffer of %zu: writer reports %zu bytes, the document takes %zu", n, w.size(), ref.size());
			for (size_t i = 0; i < n; i++)
				MC_CHECK(i < m ? (open[i] || b.p[i] == ref[i]) : b.p[i] == 0xC3, "buffer of %zu: writer put %02x at %zu, expected %02x", n, b.p[i], i,
						 i < m ? ref[i] : 0xC3);
		}
		{
			Block b{n};
			auto r = CompactBinarySerializer<K, S>::serialize(b.span(), d);
			MC_CHECK(r == ref.size(), "buffer of %zu: serializer reports %zu bytes, the document takes %zu", n, r, ref.size());
			auto full = encode<K, S>(doc);
			for (size_t i = 0; i < n; i++)
				MC_CHECK(b.p[i] == (i < m ? full[i] : 0xC3), "buffer of %zu: serializer put %02x at %zu, expected %02x", n, b.p[i], i,
						 i < m ? full[i] : 0xC3);
			// what fits is readable: reading a cut-off document never leaves it
			CompactBinaryParser<K, S> p{b.span().subspan(0, m)};
			for (int k = 0; k < 2; k++) {
				auto node = p.get_node(KeyOf<K>::at(k));
				MC_CHECK(node.size() <= m && (node.empty() || (node.data() >= b.p.get() && node.data() + node.size() <= b.p.get() + m)),
						 "node outside the buffer");
			}
		}
	}
}
template<class K, class S, unsigned D>
void reg(const char *name, Shape q, Shape t) {
	mc::Reg(name, [=](mc::Job &j) { j.explore({}, [&, sh = j.tier(q, t)](mc::Ctx &c) { run<K, S, D>(c, sh); }); });
}
static int init = [] {
	reg<uint8_t, uint8_t, 8>("u8.u8", {3, 3, 2, {U8, U16, RAW0, RAW3}}, {4, 4, 2, {U8, U16, RAW0, RAW3}});
	reg<EK, uint16_t, 8>("enum16.u16", {3, 2, 2, {U8, TRIP, RAW0}}, {4, 3, 2, {U8, TRIP, RAW0}});
	reg<uint8_t, uint32_t, 8>("u8.u32.big", {2, 2, 1, {U32, RAWBIG}}, {3, 2, 1, {U32, RAWBIG}});
	reg<C4, uint8_t, 8>("text.u8", {3, 2, 2, {U8, RAW3}}, {4, 3, 2, {U8, RAW3}});
	reg<uint8_t, uint16_t, 1>("depth1", {4, 4, 1, {U8}}, {6, 6, 1, {U8, RAW0}});
	reg<uint8_t, uint16_t, 2>("depth2", {5, 5, 1, {U8}}, {7, 7, 1, {U8}});
	reg<uint8_t, uint16_t, 8>("depth8", {6, 11, 1, {U8}}, {9, 11, 1, {U8}});
	// a chain of 12 nested objects around one field
	mc::Reg("chain", [](mc::Job &j) {
		j.sweep(0, 13, [&](uint64_t depth) {
			Node n{0, U8, 5, {}};
			for (uint64_t i = 0; i < depth; i++) {
				Node o{0, OBJ, 0, {}};
				o.kids.push_back(n);
				o.kids.push_back(Node{1, U16, 77, {}});
				n = o;
			}
			std::vector<Node> doc{n};
			std::vector<size_t> deep;
			auto ref = encode<uint8_t, uint16_t>(doc, 0, 8, &deep);
			for (size_t sz = 0; sz < ref.size() + 2; sz++) {
				Block b{sz};
				CompactBinaryWriter<uint8_t, uint16_t> w{b.span()};
				write<uint8_t>(w, doc);
				MC_CHECK(w.size() == ref.size(), "nesting %d: size %zu, expected %zu", int(depth), w.size(), ref.size());
				for (size_t i = 0; i < std::min(sz, ref.size()); i++)
					MC_CHECK(b.p[i] == ref[i] || std::find(deep.begin(), deep.end(), i) != deep.end(), "nesting %d: byte %zu", int(depth), i);
			}
			return true;
		});
	});
	return 0;
}();
