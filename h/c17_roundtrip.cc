// C17: every document written is read back, and all ways of writing agree byte for byte.
#include "cbf.hh"
using namespace cbf;

template<class K, class S>
void check_level(const std::vector<Node> &v, std::span<const uint8_t> blob) {
	CompactBinaryParser<K, S> p{blob};
	for (int k = 0; k < 3; k++) {
		const Node *n = nullptr;
		for (auto &x : v)
			if (x.key == k) {
				n = &x;
				break;
			}
		auto key = KeyOf<K>::at(k);
		auto node = p.get_node(key);
		auto g8 = p.template get<uint8_t>(key);
		auto g16 = p.template get<uint16_t>(key);
		auto g32 = p.template get<uint32_t>(key);
		auto gt = p.template get<Trip>(key);
		if (!n) {
			MC_CHECK(node.empty() && !g8 && !g16 && !g32 && !gt && p.get_size(key) == 0, "key %d is absent but something is found", k);
			continue;
		}
		auto want = payload<K, S>(*n, 0, 99, nullptr, 0);
		MC_CHECK(p.get_size(key) == want.size(), "key %d: size %zu, stored %zu", k, p.get_size(key), want.size());
		MC_CHECK(node.size() == want.size() && std::equal(node.begin(), node.end(), want.begin()), "key %d: node is [%s], stored [%s]", k,
				 hex(node).c_str(), hex(want).c_str());
		MC_CHECK(node.empty() || (node.data() >= blob.data() && node.data() + node.size() <= blob.data() + blob.size()), "node outside");
		MC_CHECK(g8.has_value() == (want.size() == 1) && (!g8 || *g8 == want[0]), "key %d: 1-byte value", k);
		MC_CHECK(g16.has_value() == (want.size() == 2) && (!g16 || *g16 == (want[0] | want[1] << 8)), "key %d: 2-byte value", k);
		MC_CHECK(g32.has_value() == (want.size() == 4) && (!g32 || !memcmp(&*g32, want.data(), 4)), "key %d: 4-byte value", k);
		MC_CHECK(gt.has_value() == (want.size() == 8) && (!gt || !memcmp(&*gt, want.data(), 8)), "key %d: struct value", k);
		if (n->kind == OBJ)
			check_level<K, S>(n->kids, node);
	}
}

template<class K, class S>
void run(mc::Ctx &c, const Shape &sh) {
	std::vector<Node> doc;
	int left = sh.budget;
	uint32_t serial = 0;
	gen(c, sh, left, 0, doc, serial);
	auto ref = encode<K, S>(doc);
	if (c.tracing)
		c.log("document: %s  -> %s", show(doc).c_str(), hex(ref).c_str());
	if (!doc.empty())
		c.nontrivial();

	Block w{ref.size()}, s{ref.size()};
	CompactBinaryWriter<K, S> wr{w.span()};
	write<K>(wr, doc);
	MC_CHECK(wr.size() == ref.size(), "writer reports %zu bytes, the document takes %zu", wr.size(), ref.size());
	MC_CHECK(ref.empty() || !memcmp(w.p.get(), ref.data(), ref.size()), "writer produced [%s], expected [%s]", hex(w.span()).c_str(), hex(ref).c_str());

	using Ser = CompactBinarySerializer<K, S>;
	auto d = [&](auto &x) { describe<K>(x, doc); };
	auto n = Ser::serialize(s.span(), d);
	MC_CHECK(n == ref.size(), "serializer reports %zu bytes, the document takes %zu", n, ref.size());
	MC_CHECK(!memcmp(s.p.get(), ref.data(), ref.size()), "serializer produced [%s], expected [%s]", hex(s.span()).c_str(), hex(ref).c_str());
	MC_CHECK(Ser::measure(d) == ref.size(), "measure reports %zu bytes, the document takes %zu", Ser::measure(d), ref.size());
	std::vector<uint8_t> st;
	auto sink = [&](std::span<const uint8_t> b) { st.insert(st.end(), b.begin(), b.end()); };
	MC_CHECK(Ser::stream(d, sink) == ref.size(), "stream reports a wrong number of bytes");
	MC_CHECK(st == ref, "stream produced [%s], expected [%s]", hex(st).c_str(), hex(ref).c_str());

	check_level<K, S>(doc, w.span());
}

template<class K, class S>
void reg(const char *name, Shape q, Shape t) {
	mc::Reg(name, [=](mc::Job &j) { j.explore({}, [&, sh = j.tier(q, t)](mc::Ctx &c) { run<K, S>(c, sh); }); });
}
// text keys of any length, and values of any size
template<size_t N, size_t V>
void wide(mc::Job &j, uint64_t base) {
	j.sweep(base, base + N + 1, [=](uint64_t x) { // N: no room for a terminator
		using K = const char[N];
		using S = uint16_t;
		mc::Exact<char> k1{N}, k2{N};
		size_t len = x - base; // the keys differ in their last character
		for (size_t i = 0; i < N; i++) {
			k1[i] = i < len ? char('a' + i % 20) : i == len ? '\0' : 'x';
			k2[i] = i < len ? i + 1 == len ? 'Z' : char('a' + i % 20) : i == len ? '\0' : 'y';
		}
		std::array<uint8_t, V> v1, v2;
		for (size_t i = 0; i < V; i++)
			v1[i] = uint8_t(i * 3 + 1), v2[i] = uint8_t(i * 5 + 2);
		std::vector<uint8_t> in, ref;
		auto key = [&](std::vector<uint8_t> &r, const char *k) {
			for (size_t i = 0; i < N; i++)
				r.push_back(i < len ? uint8_t(k[i]) : 0);
		};
		key(in, k2.get()), cat(in, le(V, 2)), in.insert(in.end(), v1.begin(), v1.end());
		if (len)
			key(in, k1.get()), cat(in, le(V, 2)), in.insert(in.end(), v2.begin(), v2.end());
		key(ref, k2.get()), cat(ref, le(0, 2));
		if (len)
			key(ref, k1.get()), cat(ref, le(in.size(), 2)), cat(ref, in);
		auto d = [&](auto &s) {
			s.raw(k2.get(), {});
			if (len)
				s.object(k1.get(), [&](auto &s) { s.field(k2.get(), v1), s.field(k1.get(), v2); });
		};
		Block a{ref.size()}, b{ref.size()};
		CompactBinaryWriter<K, S> w{a.span()};
		w.raw(k2.get(), {});
		if (len) {
			w.begin_object(k1.get());
			w.field(k2.get(), v1), w.field(k1.get(), v2);
			w.end_object();
		}
		auto n = CompactBinarySerializer<K, S>::serialize(b.span(), d);
		MC_CHECK(w.size() == ref.size() && n == ref.size() && !memcmp(a.p.get(), ref.data(), ref.size()) && !memcmp(b.p.get(), ref.data(), ref.size()), "keys of %zu in %zu characters, values of %zu bytes: written as [%s] and [%s], expected [%s]",
				 len, N, V, hex(a.span()).c_str(), hex(b.span()).c_str(), hex(ref).c_str());
		if (len) {
			CompactBinaryParser<K, S> p{b.span()}, q{p.get_node(k1.get())};
			auto g1 = q.template get<std::array<uint8_t, V>>(k2.get()), g2 = q.template get<std::array<uint8_t, V>>(k1.get());
			MC_CHECK(g1 && *g1 == v1 && g2 && *g2 == v2, "keys of %zu in %zu characters, values of %zu bytes: not read back", len, N, V);
		}
		return len > 0;
	});
}
static int init = [] {
	mc::Reg("wide", [](mc::Job &j) {
		j.note("wide: text keys of 1 to 40 characters with all shorter keys in them, and values of 1 to 300 bytes");
		wide<1, 1>(j, 0), wide<2, 3>(j, 100), wide<3, 5>(j, 200), wide<5, 8>(j, 300), wide<8, 16>(j, 400), wide<9, 17>(j, 500), wide<12, 64>(j, 600), wide<16, 127>(j, 700), wide<17, 128>(j, 800), wide<20, 255>(j, 900);
		wide<24, 256>(j, 1000), wide<32, 257>(j, 1100), wide<33, 300>(j, 1200), wide<40, 4>(j, 1300);
	});
	reg<uint8_t, uint8_t>("u8.u8", {4, 3, 2, {U8, U16, RAW0, RAW3}}, {5, 4, 2, {U8, U16, RAW0, RAW3}});
	reg<EK, uint16_t>("enum16.u16", {4, 2, 2, {U8, U32, TRIP, RAWBIG}}, {5, 3, 2, {U8, U16, U32, TRIP, RAW0, RAW3, RAWBIG}});
	reg<uint32_t, uint32_t>("u32.u32", {3, 2, 3, {U16, U32, RAW1, RAWBIG}}, {4, 3, 3, {U8, U16, U32, RAW1, RAWBIG}});
	reg<C4, uint8_t>("text.u8", {4, 2, 3, {U8, U32, RAW0}}, {5, 3, 3, {U8, U32, RAW0, RAW3}});
	reg<C4, uint32_t>("text.u32", {3, 2, 2, {U8, TRIP, RAW0, RAWBIG}}, {4, 3, 2, {U8, TRIP, RAW0, RAWBIG}});
	reg<uint8_t, int16_t>("u8.i16", {3, 2, 2, {U8, RAW0, RAWBIG}}, {4, 3, 2, {U8, U16, RAW0, RAWBIG}});
	reg<uint8_t, uint64_t>("u8.u64", {2, 2, 2, {U8, U32, RAW0, RAWBIG}}, {4, 2, 2, {U8, U32, RAW0, RAWBIG}});
	reg<uint8_t, uint16_t>("nest", {7, 7, 1, {U8}}, {9, 9, 1, {U8}});
	return 0;
}();
