// Simulated flash block shared by C05 and C06.
#pragma once
#include "mc.hh"
#include "util/wear_level.hh"
#include <array>
#include <functional>
#include <optional>

struct Data {
	uint32_t value;
	uint32_t check;
	static uint32_t sum(uint32_t v) {
		return (v ^ 0x5A5A1234u) * 2654435761u;
	}
	static Data make(uint32_t v) {
		return {v, sum(v)};
	}
	bool validate() const {
		return check == sum(value) && value != 0xFFFFFFFF && value < 1000000;
	}
	bool blank() const {
		return value == 0xFFFFFFFF && check == 0xFFFFFFFF;
	}
};
static const Data Blank{0xFFFFFFFF, 0xFFFFFFFF};
static const Data Garbage{0x1357924, 0x00112233};

enum class Prim { Read, Write, Erase };
struct Flash {
	std::vector<Data> cells;
	// hooks decide what a primitive does; default: it works
	std::function<bool(Data &, size_t)> on_read;
	std::function<bool(const Data &, size_t)> on_write;
	std::function<bool()> on_erase;
	std::vector<int> writes; // per cell
	std::vector<uint64_t> age; // per cell: when it was last programmed
	uint64_t clock = 0;
	int erases = 0;
	bool quiet = false; // a mutation is an error
	explicit Flash(size_t n)
		: cells(n, Blank)
		, writes(n)
		, age(n) {
	}
	size_t n() const {
		return cells.size();
	}
	void range(const char *what, size_t c) {
		MC_CHECK(c < n(), "%s of cell %zu of a block of %zu cells", what, c, n());
	}
	bool read(Data &d, size_t c) {
		range("read", c);
		if (on_read)
			return on_read(d, c);
		d = cells[c];
		return true;
	}
	void program(size_t c, const Data &d, uint32_t m0 = ~0u, uint32_t m1 = ~0u) { // can only clear bits
		age[c] = ++clock;
		cells[c].value &= d.value | ~m0;
		cells[c].check &= d.check | ~m1;
	}
	bool write(const Data &d, size_t c) {
		range("write", c);
		MC_CHECK(!quiet, "storage written by an operation that only reads");
		MC_CHECK(cells[c].blank(), "cell %zu written although it is not blank", c);
		writes[c]++;
		if (on_write)
			return on_write(d, c);
		program(c, d);
		return true;
	}
	bool erase() {
		MC_CHECK(!quiet, "storage erased by an operation that only reads");
		erases++;
		if (on_erase)
			return on_erase();
		for (auto &x : cells)
			x = Blank;
		return true;
	}
	bool writeable(size_t c) {
		range("is_writeable", c);
		return cells[c].blank();
	}
	// newest intact value in the block
	std::optional<uint32_t> newest() const {
		std::optional<uint32_t> r;
		uint64_t a = 0;
		for (size_t i = 0; i < n(); i++)
			if (cells[i].validate() && (!r || age[i] > a)) {
				r = cells[i].value;
				a = age[i];
			}
		return r;
	}
	std::string show() const {
		std::string s;
		for (auto &c : cells)
			s += c.blank() ? "[ ]" : c.validate() ? mc::fmt("[%u]", c.value) : "[x]";
		return s;
	}
};
inline Flash *g_flash;

// the two classes behind one interface
template<size_t N>
struct StatStore {
	using data_t = Data;
	static constexpr size_t cell_nr_ = N;
	bool read(Data &d, size_t c) {
		return g_flash->read(d, c);
	}
	bool write(const Data &d, size_t c) {
		return g_flash->write(d, c);
	}
	bool erase() {
		return g_flash->erase();
	}
	bool is_writeable(size_t c) {
		return g_flash->writeable(c);
	}
};
template<size_t N>
struct ObjStore {
	using data_t = Data;
	static constexpr size_t NumCells = N;
	Flash &f;
	ObjStore(Flash &f)
		: f{f} {
	}
	bool read(Data *d, size_t c) {
		return f.read(*d, c);
	}
	bool write(const Data *d, size_t c) {
		return f.write(*d, c);
	}
	bool erase() {
		return f.erase();
	}
	bool is_writeable(size_t c) {
		return f.writeable(c);
	}
};
struct Dev {
	virtual bool read(Data &) = 0;
	virtual bool write(const Data &) = 0;
	virtual ~Dev() = default;
};
template<size_t N>
struct DevStat : Dev {
	WearLevel<StatStore<N>> w;
	bool read(Data &d) override {
		return w.read(d);
	}
	bool write(const Data &d) override {
		return w.write(d);
	}
};
template<size_t N>
struct DevObj : Dev {
	WearLeveler<ObjStore<N>> w;
	DevObj()
		: w{*g_flash} {
	}
	bool read(Data &d) override {
		return w.read(d);
	}
	bool write(const Data &d) override {
		return w.write(d);
	}
};
