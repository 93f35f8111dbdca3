// Element values for container histories: a small alphabet per type whose members include the default value, the
// extremes of the type and (for owning types) texts beyond the small-string size, so that finite state graphs can be
// explored to the end and no behaviour may depend on values being distinct, positive or small.
#pragma once
#include <cstdint>
#include <limits>
#include <string>
#include <type_traits>
struct Wide24 { // 24 bytes, no padding
	uint64_t a = 0, b = 0, c = 0;
	bool operator==(const Wide24 &) const = default;
};
struct Odd3 { // 3 bytes, alignment 1
	uint8_t v[3] = {};
	bool operator==(const Odd3 &) const = default;
};
struct Mv { // moving from it shows
	uint16_t v = 0;
	Mv() = default;
	explicit Mv(int n)
		: v(n) {
	}
	Mv(const Mv &) = default;
	Mv &operator=(const Mv &) = default;
	Mv(Mv &&o) noexcept
		: v{o.v} {
		o.v = 0xDEAD;
	}
	Mv &operator=(Mv &&o) noexcept {
		auto n = o.v;
		o.v = 0xDEAD;
		v = n;
		return *this;
	}
	explicit operator double() const {
		return v;
	}
	bool operator==(const Mv &o) const {
		return v == o.v;
	}
};
enum class Col : uint16_t { none, red, blue = 0xFFFF };
template<class T>
T alpha(unsigned k) { // 0: the default value
	if constexpr (std::is_same_v<T, std::string>) {
		static const char *s[] = {"", "a", "a text that is longer than any small string", "b"};
		return s[k % 4];
	} else if constexpr (std::is_same_v<T, Wide24>) {
		return k % 4 == 0 ? Wide24{} : k % 4 == 1 ? Wide24{1, 0, 0} : k % 4 == 2 ? Wide24{0, 0, ~0ull} : Wide24{~0ull, 0x5A5A5A5A, 1};
	} else if constexpr (std::is_same_v<T, Odd3>) {
		return k % 4 == 0 ? Odd3{} : k % 4 == 1 ? Odd3{{1, 0, 0}} : k % 4 == 2 ? Odd3{{0, 0, 0xFF}} : Odd3{{0xFF, 0x80, 1}};
	} else if constexpr (std::is_same_v<T, Mv>) {
		return Mv(k % 4 == 0 ? 0 : k % 4 == 1 ? 1 : k % 4 == 2 ? 0xFFFF : 0x100);
	} else if constexpr (std::is_enum_v<T>) {
		return k % 4 == 0 ? T::none : k % 4 == 1 ? T::red : k % 4 == 2 ? T::blue : T(0x8000);
	} else if constexpr (std::is_same_v<T, bool>) {
		return k % 2;
	} else {
		using L = std::numeric_limits<T>;
		return k % 4 == 0 ? T(0) : k % 4 == 1 ? L::max() : k % 4 == 2 ? (std::is_unsigned_v<T> ? T(L::max() / 2 + 1) : L::lowest()) : T(1);
	}
}
