// C31: audio frames; every sample value and a dense set of levels for several sample formats.
#include "mc.hh"
#include <cmath>
#include "util/audio_frame.hh"

template<class F>
static void guarded_store(F &f, unsigned ch, float v, const F &before, int nch) {
	f.set_scaled_output(ch, v);
	for (int k = 0; k < nch; k++)
		if (k != int(ch))
			MC_CHECK(f.chan[k] == before.chan[k], "storing into channel %u changes channel %d", ch, k);
}
template<class T, int Bits, int NCh>
static void samples(mc::Job &j, uint64_t total, const char *n) {
	using F = AudioFrame<T, Bits, NCh>;
	const int64_t full = int64_t(1) << (Bits - 1);
	uint64_t all = 1ull << Bits;
	uint64_t step = all > total ? all / total | 1 : 1;
	auto f = std::make_unique<F>();
	j.note(mc::fmt("%s: one in %llu of the %d-bit sample values with all fillings of the unused bits", n, (unsigned long long)step, Bits));
	const uint64_t extra = 65 + 14 * uint64_t(Bits); // both ends and the middle, and around each power of two of either sign, densely
	j.sweep(0, all / step + extra, [&](uint64_t i) {
		uint64_t u = i < 33 ? i : i < 65 ? all - (i - 32) : i < extra ? (((i - 65) & 1 ? -1 : 1) * (1ull << ((i - 65) / 14))) + (i - 65) / 2 % 7 - 3 : (i - extra) * step;
		u &= all - 1;
		int64_t want = u < uint64_t(full) ? int64_t(u) : int64_t(u) - 2 * full;
		for (int fill = 0; fill < 3; fill++) {
			uint64_t raw = u;
			if (Bits < int(sizeof(T) * 8)) {
				if (fill == 1)
					raw |= ~0ull << Bits;
				if (fill == 2)
					raw |= 0xA5A5A5A5A5A5A5A5ull << Bits;
			}
			for (int k = 0; k < NCh; k++)
				f->chan[k] = T(uint64_t(k) * 3 + 1);
			unsigned ch = unsigned(i % NCh);
			f->chan[ch] = T(raw);
			T e = f->sign_extend_chan(ch);
			MC_CHECK(int64_t(e) == want, "%d-bit sample %#llx extends to %lld, expected %lld", Bits, (unsigned long long)raw, (long long)e, (long long)want);
			float s = f->scale_input_chan(ch);
			double w = double(want) / double(full);
			MC_CHECK(std::fabs(double(s) - w) <= 1e-7 && s >= -1.f && s <= 1.f, "%d-bit sample %lld scales to %.9g, expected %.9g", Bits, (long long)want, double(s), w);
			MC_CHECK(F::scaleInput(T(raw)) == s, "scaleInput and scale_input_chan differ");
			// and back again
			F before = *f;
			guarded_store(*f, ch, s, before, NCh);
			if (Bits <= 24)
				MC_CHECK(int64_t(f->sign_extend_chan(ch)) == want && int64_t(f->chan[ch]) == want, "%d-bit sample %lld comes back as %lld", Bits, (long long)want, (long long)f->chan[ch]);
			else
				MC_CHECK(std::llabs(int64_t(f->sign_extend_chan(ch)) - want) <= (full >> 24) && (want < 0) == (f->sign_extend_chan(ch) < 0 || (want > -(full >> 24) && want < 0 && f->sign_extend_chan(ch) == 0)),
						 "%d-bit sample %lld comes back as %lld", Bits, (long long)want, (long long)f->chan[ch]);
		}
		return want != 0;
	});
}
template<class T, int Bits>
static void levels(mc::Job &j, const char *n) {
	using F = AudioFrame<T, Bits, 2>;
	const double full = std::ldexp(1.0, Bits - 1);
	j.note(mc::fmt("%s: levels at all multiples of 2^-12 in [-4,4], neighbours of full scale, and large levels up to 1e9", n));
	int64_t prev = INT64_MIN;
	const uint64_t dense = 32769 + 120, pows = 14 * uint64_t(Bits);
	j.sweep(0, dense + pows, [&](uint64_t i) {
		float v;
		if (i >= dense) { // levels whose outputs are around powers of two
			int64_t k = int64_t(i - dense), o = ((k & 1 ? -1 : 1) * (int64_t(1) << (k / 14))) + k / 2 % 7 - 3;
			if constexpr (std::is_signed_v<T>)
				v = float(double(o) / full);
			else
				v = float((double(o) + 0.5) / full - 1);
		} else if (i < 32769)
			v = float(int(i) - 16384) / 4096;
		else {
			unsigned k = unsigned(i - 32769);
			static const float B[] = {1.f, 127.f, 128.f, 255.5f, 256.f, 257.f, 32768.f, 65536.f, 1e6f, 1e9f};
			if (k < 60) {
				v = (k & 1) ? 1.f : -1.f;
				for (unsigned s = 0; s < k / 4; s++)
					v = std::nextafterf(v, (k & 2) ? 0.f : v * 4);
			} else
				v = B[(k - 60) % 10] * ((k / 10) & 1 ? 1.f : -1.f);
		}
		F f{};
		f.chan[0] = T(3);
		f.set_scaled_output(1, v);
		MC_CHECK(f.chan[0] == T(3), "storing into channel 1 changes channel 0");
		int64_t g = int64_t(f.chan[1]);
		MC_CHECK(F::scaleOutput(v) == f.chan[1], "scaleOutput and set_scaled_output differ");
		if constexpr (std::is_signed_v<T>) {
			double w = double(v) * full;
			w = w < -full ? -full : w > full - 1 ? full - 1 : w;
			double tol = Bits > 24 ? full / (1 << 24) : 0;
			MC_CHECK(std::fabs(double(g) - std::trunc(w)) <= tol, "level %.9g becomes %lld, expected %.0f (%d bits)", double(v), (long long)g, std::trunc(w), Bits);
			MC_CHECK(double(g) >= -full && double(g) <= full - 1, "level %.9g becomes %lld, outside %d bits", double(v), (long long)g, Bits);
		} else {
			double top = 2 * full - 1, w = (double(v) * 0.5 + 0.5) * top;
			w = w < 0 ? 0 : w > top ? top : w;
			double tol = Bits > 20 ? full / (1 << 21) : 1;
			MC_CHECK(std::fabs(double(g) - w) <= tol, "level %.9g becomes %lld, expected %.1f (%d bits)", double(v), (long long)g, w, Bits);
			if (v >= 1.f)
				MC_CHECK(double(g) == top, "full scale becomes %lld", (long long)g);
			if (v <= -1.f)
				MC_CHECK(g == 0, "negative full scale becomes %lld", (long long)g);
		}
		if (i < 32769 && i > 0 && !j.replaying)
			MC_CHECK(g >= prev, "output is not monotone at level %.9g", double(v));
		prev = g;
		return v != 0;
	});
}
static int init = [] {
	mc::Reg("s24", [](mc::Job &j) { samples<int32_t, 24, 2>(j, uint64_t(j.tier(1 << 20, 1 << 24)), "24 bits in 32"); });
	mc::Reg("s16", [](mc::Job &j) { samples<int16_t, 16, 2>(j, 1 << 20, "16 bits"); });
	mc::Reg("s8", [](mc::Job &j) { samples<int8_t, 8, 3>(j, 1 << 20, "8 bits, 3 channels"); });
	mc::Reg("s12", [](mc::Job &j) { samples<int16_t, 12, 2>(j, 1 << 20, "12 bits in 16"); });
	mc::Reg("s6", [](mc::Job &j) { samples<int8_t, 6, 1>(j, 1 << 20, "6 bits in 8, mono"); });
	mc::Reg("s16-32", [](mc::Job &j) { samples<int32_t, 16, 4>(j, 1 << 20, "16 bits in 32, 4 channels"); });
	mc::Reg("s20-32", [](mc::Job &j) { samples<int32_t, 20, 2>(j, 1 << 20, "20 bits in 32"); });
	mc::Reg("s32", [](mc::Job &j) { samples<int32_t, 32, 2>(j, uint64_t(j.tier(1 << 20, 1 << 24)), "32 bits"); });
	mc::Reg("s30-32", [](mc::Job &j) { samples<int32_t, 30, 2>(j, uint64_t(j.tier(1 << 20, 1 << 22)), "30 bits in 32"); });
	mc::Reg("defaults", [](mc::Job &j) {
		j.note("defaults: a frame is stereo and uses all bits of its sample type unless told otherwise");
		j.sweep(0, 65536, [](uint64_t i) {
			AudioFrame<int16_t> a{};
			MC_CHECK(a.chan.size() == 2 && AudioFrame<int8_t>{}.chan.size() == 2 && (AudioFrame<int32_t, 24>{}.chan.size() == 2), "default number of channels");
			a.chan[0] = int16_t(i);
			MC_CHECK(a.sign_extend_chan(0) == int16_t(i) && double(a.scale_input_chan(0)) == int16_t(i) / 32768.0, "16-bit sample %d", int16_t(i));
			MC_CHECK((AudioFrame<int8_t>::scaleInput(int8_t(i)) == float(int8_t(i)) / 128.f), "8-bit sample %d", int8_t(i));
			return i != 0;
		});
	});
	mc::Reg("l24", [](mc::Job &j) { levels<int32_t, 24>(j, "24 bits in 32"); });
	mc::Reg("l16", [](mc::Job &j) { levels<int16_t, 16>(j, "16 bits"); });
	mc::Reg("l8", [](mc::Job &j) { levels<int8_t, 8>(j, "8 bits"); });
	mc::Reg("l12", [](mc::Job &j) { levels<int16_t, 12>(j, "12 bits in 16"); });
	mc::Reg("l6", [](mc::Job &j) { levels<int8_t, 6>(j, "6 bits in 8"); });
	mc::Reg("l16-32", [](mc::Job &j) { levels<int32_t, 16>(j, "16 bits in 32"); });
	mc::Reg("l20-32", [](mc::Job &j) { levels<int32_t, 20>(j, "20 bits in 32"); });
	mc::Reg("l30-32", [](mc::Job &j) { levels<int32_t, 30>(j, "30 bits in 32"); });
	mc::Reg("l32", [](mc::Job &j) { levels<int32_t, 32>(j, "32 bits"); });
	mc::Reg("lu8", [](mc::Job &j) { levels<uint8_t, 8>(j, "unsigned 8 bits"); });
	mc::Reg("lu16", [](mc::Job &j) { levels<uint16_t, 16>(j, "unsigned 16 bits"); });
	mc::Reg("lu12", [](mc::Job &j) { levels<uint16_t, 12>(j, "unsigned 12 bits in 16"); });
	mc::Reg("lu32", [](mc::Job &j) { levels<uint32_t, 32>(j, "unsigned 32 bits"); });
	return 0;
}();
