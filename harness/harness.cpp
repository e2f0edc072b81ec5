// Drives the real library and the tool's units through scenarios and records what they do.
//
//   harness SCENARIOS.ndjson TRACE.ndjson
//
// Every line of SCENARIOS is {"id":..,"fam":..,"steps":[..]}. Every line of TRACE is the scenario's
// header with "steps" replaced by the observed steps: the inputs in the form the specification
// reads, plus the results. No judgement is made here. A scenario that kills or hangs the process is
// recorded with "died" set to how it ended, and the remaining ones run in a new process.
#include <VFC/Converter.h>
#include <VFC/IndexData.h>
#include <VFC/VertexFormat.h>
#include <VFC/VertexValue.h>
#include "Base64.h"
#include "ConfigFile.h"
#include "Path.h"
#include "ResultFile.h"

#include <rapidjson/document.h>
#include <rapidjson/stringbuffer.h>
#include <rapidjson/writer.h>

#include <atomic>
#include <cinttypes>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

using rapidjson::Value;
using std::string;
using std::vector;

namespace
{

// ------------------------------------------------------------------ output

// The trace must be readable even where the code under test hands out broken UTF-8.
static string readable(const string& v)
{
	string r;
	for (size_t i = 0; i < v.size();)
	{
		unsigned char c = static_cast<unsigned char>(v[i]);
		size_t n = c < 0x80 ? 1 : c >= 0xC2 && c < 0xE0 ? 2 : c >= 0xE0 && c < 0xF0 ? 3 : c >= 0xF0 && c < 0xF5 ? 4 : 0;
		bool ok = n > 0 && i + n <= v.size();
		for (size_t k = 1; ok && k < n; ++k)
			ok = (static_cast<unsigned char>(v[i + k]) & 0xC0) == 0x80;
		if (ok && n > 2)
		{
			unsigned char d = static_cast<unsigned char>(v[i + 1]);
			ok = !(c == 0xE0 && d < 0xA0) && !(c == 0xED && d >= 0xA0) && !(c == 0xF0 && d < 0x90) && !(c == 0xF4 && d >= 0x90);
		}
		if (ok)
		{
			r.append(v, i, n);
			i += n;
		}
		else
		{
			char hex[8];
			snprintf(hex, sizeof(hex), "\xEF\xBF\xBD" "%02X", c);
			r += hex;
			++i;
		}
	}
	return r;
}

struct Out
{
	string s;
	bool first = true;

	void sep()
	{
		if (!first)
			s += ',';
		first = false;
	}
	void key(const char* k)
	{
		sep();
		s += '"';
		s += k;
		s += "\":";
		first = true;
	}
	void open(char c)
	{
		sep();
		s += c;
		first = true;
	}
	void close(char c)
	{
		s += c;
		first = false;
	}
	void num(long long v)
	{
		sep();
		s += std::to_string(v);
	}
	void boolean(bool v)
	{
		sep();
		s += v ? "true" : "false";
	}
	void str(const string& raw)
	{
		string v = readable(raw);
		sep();
		rapidjson::StringBuffer b;
		rapidjson::Writer<rapidjson::StringBuffer> w(b);
		w.String(v.c_str(), static_cast<rapidjson::SizeType>(v.size()));
		s += b.GetString();
	}
	void raw(const Value& v)
	{
		sep();
		rapidjson::StringBuffer b;
		rapidjson::Writer<rapidjson::StringBuffer> w(b);
		v.Accept(w);
		s += b.GetString();
	}
	// Members or elements written elsewhere.
	void part(const string& other)
	{
		if (other.empty())
			return;
		sep();
		s += other;
	}
	void kv(const char* k, long long v) { key(k); num(v); }
	void kvb(const char* k, bool v) { key(k); boolean(v); }
	void kvs(const char* k, const string& v) { key(k); str(v); }
	void bytes(const void* d, size_t n)
	{
		open('[');
		auto p = static_cast<const uint8_t*>(d);
		for (size_t i = 0; i < n; ++i)
			num(p[i]);
		close(']');
	}
	// 32-bit value as two 16-bit halves (TLC's integers are 32-bit signed).
	void u32(uint32_t v)
	{
		open('[');
		num(v >> 16);
		num(v & 0xFFFF);
		close(']');
	}
	// Double as [class, sign, exponent, limbs]: (-1)^sign * sum(limb[i]*2^(14 i)) * 2^exponent.
	// class: 0 finite, 1 infinite, 2 NaN.
	void dbl(double d)
	{
		uint64_t b;
		std::memcpy(&b, &d, 8);
		int cls = std::isnan(d) ? 2 : (std::isinf(d) ? 1 : 0);
		int sign = static_cast<int>(b >> 63);
		uint64_t m = b & ((1ULL << 52) - 1);
		int e = static_cast<int>((b >> 52) & 0x7FF);
		if (cls == 0)
		{
			if (e == 0)
				e = 1;
			else
				m |= 1ULL << 52;
			e -= 1075;
			if (m == 0)
				e = 0;
			else
			{
				while ((m & 1) == 0)
				{
					m >>= 1;
					++e;
				}
			}
		}
		else
		{
			m = 0;
			e = 0;
		}
		open('[');
		num(cls);
		num(sign);
		num(e);
		open('[');
		while (m)
		{
			num(m & 0x3FFF);
			m >>= 14;
		}
		close(']');
		close(']');
	}
	void value(const vfc::VertexValue& v)
	{
		open('[');
		for (unsigned i = 0; i < 4; ++i)
			dbl(v[i]);
		close(']');
	}
};

// ------------------------------------------------------------------ input helpers

const char* const layoutNames[] = {"X8", "X8Y8", "X8Y8Z8", "X8Y8Z8W8", "W2X10Y10Z10", "W2Z10Y10X10",
	"X16", "X16Y16", "X16Y16Z16", "X16Y16Z16W16", "X32", "X32Y32", "X32Y32Z32", "X32Y32Z32W32",
	"X64", "X64Y64", "X64Y64Z64", "X64Y64Z64W64", "Z10Y11X11_UFloat", "E5Z9Y9X9_UFloat"};
const vfc::ElementLayout layouts[] = {vfc::ElementLayout::X8, vfc::ElementLayout::X8Y8,
	vfc::ElementLayout::X8Y8Z8, vfc::ElementLayout::X8Y8Z8W8, vfc::ElementLayout::W2X10Y10Z10,
	vfc::ElementLayout::W2Z10Y10X10, vfc::ElementLayout::X16, vfc::ElementLayout::X16Y16,
	vfc::ElementLayout::X16Y16Z16, vfc::ElementLayout::X16Y16Z16W16, vfc::ElementLayout::X32,
	vfc::ElementLayout::X32Y32, vfc::ElementLayout::X32Y32Z32, vfc::ElementLayout::X32Y32Z32W32,
	vfc::ElementLayout::X64, vfc::ElementLayout::X64Y64, vfc::ElementLayout::X64Y64Z64,
	vfc::ElementLayout::X64Y64Z64W64, vfc::ElementLayout::Z10Y11X11_UFloat,
	vfc::ElementLayout::E5Z9Y9X9_UFloat};
const char* const typeNames[] = {"UNorm", "SNorm", "UInt", "SInt", "Float"};
const vfc::ElementType types[] = {vfc::ElementType::UNorm, vfc::ElementType::SNorm,
	vfc::ElementType::UInt, vfc::ElementType::SInt, vfc::ElementType::Float};
const char* const primNames[] = {"PointList", "LineList", "LineStrip", "TriangleList",
	"TriangleStrip", "TriangleFan", "PatchList"};
const vfc::PrimitiveType prims[] = {vfc::PrimitiveType::PointList, vfc::PrimitiveType::LineList,
	vfc::PrimitiveType::LineStrip, vfc::PrimitiveType::TriangleList,
	vfc::PrimitiveType::TriangleStrip, vfc::PrimitiveType::TriangleFan,
	vfc::PrimitiveType::PatchList};
const char* const indexNames[] = {"None", "UInt16", "UInt32"};
const vfc::IndexType indexTypes[] = {vfc::IndexType::NoIndices, vfc::IndexType::UInt16,
	vfc::IndexType::UInt32};
const char* const transformNames[] = {"Identity", "Bounds", "UNormToSNorm", "SNormToUNorm"};
using Tr = vfc::Converter::Transform;
const Tr transforms[] = {Tr::Identity, Tr::Bounds, Tr::UNormToSNorm, Tr::SNormToUNorm};

// "Invalid" and unknown names give the default.
template <typename T, size_t N>
T lookup(const char* const (&names)[N], const T (&values)[N], const char* name, T def)
{
	for (size_t i = 0; i < N; ++i)
	{
		if (std::strcmp(names[i], name) == 0)
			return values[i];
	}
	return def;
}

template <typename T, size_t N>
const char* nameOf(const char* const (&names)[N], const T (&values)[N], T v)
{
	for (size_t i = 0; i < N; ++i)
	{
		if (values[i] == v)
			return names[i];
	}
	return "Invalid";
}

vfc::ElementLayout layoutOf(const Value& v)
{
	return lookup(layoutNames, layouts, v.GetString(), vfc::ElementLayout::Invalid);
}
vfc::ElementType typeOf(const Value& v)
{
	return lookup(typeNames, types, v.GetString(), vfc::ElementType::Invalid);
}
vfc::PrimitiveType primOf(const Value& v)
{
	return lookup(primNames, prims, v.GetString(), vfc::PrimitiveType::Invalid);
}
vfc::IndexType indexOf(const Value& v)
{
	return lookup(indexNames, indexTypes, v.GetString(), vfc::IndexType::NoIndices);
}
Tr transformOf(const Value& v)
{
	return lookup(transformNames, transforms, v.GetString(), Tr::Identity);
}

vfc::VertexFormat formatOf(const Value& v)
{
	vfc::VertexFormat f;
	for (auto& e : v.GetArray())
		f.appendElement(e["n"].GetString(), layoutOf(e["l"]), typeOf(e["t"]));
	return f;
}

double doubleOf(const Value& v)
{
	uint64_t b = std::strtoull(v.GetString(), nullptr, 16);
	double d;
	std::memcpy(&d, &b, 8);
	return d;
}

vfc::VertexValue valueOf(const Value& v)
{
	return vfc::VertexValue(doubleOf(v[0]), doubleOf(v[1]), doubleOf(v[2]), doubleOf(v[3]));
}

// A heap block of exactly the given size whose end is the end of the allocation, at a chosen
// misalignment, so that the address sanitizer sees every access past either end.
struct Block
{
	explicit Block(const vector<uint8_t>& d, size_t misalign = 0) : size(d.size()), off(misalign)
	{
		base = static_cast<uint8_t*>(std::malloc(size + off + (size + off == 0 ? 1 : 0)));
		if (size)
			std::memcpy(base + off, d.data(), size);
		copy = d;
	}
	Block(const Block&) = delete;
	~Block() { std::free(base); }
	uint8_t* data() const { return base + off; }
	bool unchanged() const { return size == 0 || std::memcmp(data(), copy.data(), size) == 0; }
	uint8_t* base;
	size_t size;
	size_t off;
	vector<uint8_t> copy;
};

// Zeroed memory of which only the pages in use are backed, ending at a page boundary.
struct Sparse
{
	explicit Sparse(size_t n) : size(n)
	{
		void* p = n ? mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0) : MAP_FAILED;
		base = p == MAP_FAILED ? nullptr : static_cast<uint8_t*>(p);
	}
	Sparse(const Sparse&) = delete;
	~Sparse()
	{
		if (base)
			munmap(base, size);
	}
	uint8_t* base;
	size_t size;
};

uint32_t pairOf(const Value& v)
{
	return (static_cast<uint32_t>(v[0].GetUint()) << 16) | v[1].GetUint();
}

vector<uint8_t> bytesOf(const Value& v)
{
	vector<uint8_t> r;
	for (auto& b : v.GetArray())
		r.push_back(static_cast<uint8_t>(b.GetUint()));
	return r;
}

// Index values; -1 stands for the restart value of the type.
vector<uint8_t> indexBytes(const Value& v, vfc::IndexType type)
{
	vector<uint8_t> r;
	unsigned n = type == vfc::IndexType::UInt16 ? 2 : 4;
	for (auto& b : v.GetArray())
	{
		uint32_t x = static_cast<uint32_t>(b.GetInt64());
		for (unsigned i = 0; i < n; ++i)
			r.push_back(static_cast<uint8_t>(x >> (8*i)));
	}
	return r;
}

// What is written to the standard error stream meanwhile.
struct Stderr
{
	explicit Stderr(bool on)
	{
		if (!on)
			return;
		std::cerr.flush();
		fflush(stderr);
		file = memfd_create("stderr", 0);
		saved = dup(2);
		if (file >= 0 && saved >= 0)
			dup2(file, 2);
	}
	Stderr(const Stderr&) = delete;
	~Stderr() { end(); }
	// How many lines were written.
	int end()
	{
		if (file < 0)
			return 0;
		std::cerr.flush();
		fflush(stderr);
		dup2(saved, 2);
		close(saved);
		off_t size = lseek(file, 0, SEEK_END);
		string text(static_cast<size_t>(size), ' ');
		ssize_t got = pread(file, &text[0], text.size(), 0);
		close(file);
		file = -1;
		int lines = 0;
		for (ssize_t i = 0; i < got; ++i)
			lines += text[static_cast<size_t>(i)] == '\n';
		return lines > 0 || got <= 0 ? lines : 1;
	}
	int file = -1;
	int saved = -1;
};

// ------------------------------------------------------------------ Converter histories

struct ConvRun
{
	Out& o;
	int errors = 0;
	std::unique_ptr<vfc::Converter> c;
	vector<std::unique_ptr<Block>> blocks;
	struct Added
	{
		Block* data;
		Block* idx;
		int buf;
	};
	vector<Added> adds;
	vector<std::unique_ptr<Sparse>> spaces;
	size_t multi = 0;
	// Errors go to the standard error stream, as by default.
	bool toStderr = false;
	vector<string> said;
	// Data and formats that several converters use.
	struct Pool
	{
		vector<std::unique_ptr<Block>> blocks;
		vector<vfc::VertexFormat> formats;
	};
	Pool* pool = nullptr;
	// Memory used in place of a copy of what the step says.
	const void* vertexMemory = nullptr;
	const void* indexMemory = nullptr;

	explicit ConvRun(Out& out) : o(out) {}

	bool unchanged()
	{
		if (pool)
		{
			for (auto& b : pool->blocks)
			{
				if (!b->unchanged())
					return false;
			}
		}
		for (auto& b : blocks)
		{
			if (!b->unchanged())
				return false;
		}
		return true;
	}

	void create(const Value& st)
	{
		// The caller is done with an earlier converter.
		c.reset();
		old.clear();
		oldBytes.clear();
		adds.clear();
		blocks.clear();
		spaces.clear();
		vector<vfc::VertexFormat> out;
		for (auto& f : st["out"].GetArray())
			out.push_back(formatOf(f));
		vfc::IndexType it = indexOf(st["itype"]);
		vfc::PrimitiveType pt = primOf(st["prim"]);
		unsigned patch = st["patch"].GetUint();
		bool defaultMax = st["max"].IsInt() && st["max"].GetInt() == -1;
		uint32_t max = 0;
		if (!defaultMax)
			max = (static_cast<uint32_t>(st["max"][0].GetUint()) << 16) | st["max"][1].GetUint();
		bool quiet = st.HasMember("quiet") && st["quiet"].GetBool();
		vfc::Converter::ErrorFunction ef;
		if (!quiet)
			ef = [this](const char* m)
			{
				if (m && *m)
				{
					++errors;
					said.push_back(m);
				}
			};
		bool single = st.HasMember("single") && st["single"].GetBool() && out.size() == 1;
		toStderr = st.HasMember("dflt") && st["dflt"].GetBool();
		Stderr capture(toStderr);
		if (toStderr)
		{
			if (single && defaultMax)
				c.reset(new vfc::Converter(out[0], it, pt, patch));
			else if (single)
				c.reset(new vfc::Converter(out[0], it, pt, patch, max));
			else if (defaultMax)
				c.reset(new vfc::Converter(out, it, pt, patch));
			else
				c.reset(new vfc::Converter(out, it, pt, patch, max));
		}
		else if (single)
		{
			if (defaultMax)
				c.reset(new vfc::Converter(out[0], it, pt, patch, ef));
			else
				c.reset(new vfc::Converter(out[0], it, pt, patch, max, ef));
		}
		else
		{
			if (defaultMax)
				c.reset(new vfc::Converter(out, it, pt, patch, ef));
			else
				c.reset(new vfc::Converter(out, it, pt, patch, max, ef));
		}
		errors += capture.end();
		o.kvb("ok", c->isValid());
		o.kvb("bool", static_cast<bool>(*c));
		// The configuration reads back.
		o.key("rb");
		o.open('{');
		o.kvs("itype", nameOf(indexNames, indexTypes, c->getIndexType()));
		o.kvs("prim", nameOf(primNames, prims, c->getPrimitiveType()));
		o.kv("patch", c->getPatchPoints());
		o.key("max");
		o.u32(c->getMaxIndexValue());
		o.kv("nfmt", static_cast<long long>(c->getVertexFormat().size()));
		o.kvb("fmt", c->getVertexFormat() == out);
		o.close('}');
	}

	void add(const Value& st)
	{
		vfc::IndexType it = indexOf(st["itype"]);
		// "shd" and "shi": the data or indices are the very ones of an earlier call (counted from 0).
		size_t shd = st.HasMember("shd") ? st["shd"].GetUint() : adds.size();
		size_t shi = st.HasMember("shi") ? st["shi"].GetUint() : adds.size();
		bool fromPool = pool && st.HasMember("pd");
		if (shd >= adds.size() && !fromPool)
			blocks.emplace_back(new Block(bytesOf(st["data"]), st.HasMember("mis") ? st["mis"].GetUint() : 0));
		Block* data = shd < adds.size() ? adds[shd].data :
			fromPool ? pool->blocks[st["pd"].GetUint()].get() : blocks.back().get();
		if (shi >= adds.size() && !fromPool)
			blocks.emplace_back(new Block(indexBytes(st["idx"], it)));
		Block* idx = shi < adds.size() ? adds[shi].idx :
			fromPool ? pool->blocks[st["pi"].GetUint()].get() : blocks.back().get();
		adds.push_back(Added{data, idx, st.HasMember("buf") ? st["buf"].GetInt() : 0});
		bool nullData = st.HasMember("nodata") && st["nodata"].GetBool();
		bool nullIdx = st.HasMember("noidx") && st["noidx"].GetBool();
		uint32_t vcount = st["vcount"].GetUint();
		uint32_t icount = static_cast<uint32_t>(st["idx"].Size());
		bool ok;
		vfc::VertexFormat fmt = fromPool ? pool->formats[st["pf"].GetUint()] : formatOf(st["fmt"]);
		uint8_t* vertices = data->data();
		const void* indices = idx->data();
		// "slot": the caller's own buffers, which it fills anew for every converter.
		if (st.HasMember("slot"))
		{
			static vector<vector<uint8_t>> slots(64, vector<uint8_t>(1 << 16));
			size_t k = 2*st["slot"].GetUint();
			vector<uint8_t> content = bytesOf(st["data"]), codes = indexBytes(st["idx"], it);
			if (k + 1 < slots.size() && content.size() <= slots[k].size() && codes.size() <= slots[k + 1].size())
			{
				std::copy(content.begin(), content.end(), slots[k].begin());
				std::copy(codes.begin(), codes.end(), slots[k + 1].begin());
				vertices = slots[k].data();
				indices = slots[k + 1].data();
			}
		}
		// "spread": vertex k of the data really is vertex spread[k] of "real" ones, the others being 0.
		if (st.HasMember("spread"))
		{
			auto& at = st["spread"];
			uint32_t real = pairOf(st["real"]);
			size_t stride = fmt.stride();
			spaces.emplace_back(new Sparse(stride*real));
			vector<uint8_t> moved;
			if (spaces.back()->base)
			{
				vertices = spaces.back()->base;
				vcount = real;
				for (rapidjson::SizeType k = 0; k < at.Size(); ++k)
					std::memcpy(vertices + stride*pairOf(at[k]), data->data() + stride*k, stride);
				for (auto& b : st["idx"].GetArray())
				{
					uint32_t x = static_cast<uint32_t>(b.GetInt64());
					x = x < at.Size() ? pairOf(at[x]) : x;
					for (size_t q = 0; q < vfc::indexSize(it); ++q)
						moved.push_back(static_cast<uint8_t>(x >> (8*q)));
				}
				blocks.emplace_back(new Block(moved));
				indices = blocks.back()->data();
			}
		}
		if (vertexMemory)
			vertices = static_cast<uint8_t*>(const_cast<void*>(vertexMemory));
		if (indexMemory)
			indices = indexMemory;
		bool keep = multi++ % 2 == 0;
		if (it == vfc::IndexType::NoIndices && !nullIdx)
		{
			ok = keep ? c->addVertexStream(fmt, nullData ? nullptr : vertices, vcount) :
				c->addVertexStream(std::move(fmt), nullData ? nullptr : vertices, vcount);
		}
		else
		{
			ok = keep ? c->addVertexStream(fmt, nullData ? nullptr : vertices, vcount,
					it, nullIdx ? nullptr : indices, icount) :
				c->addVertexStream(std::move(fmt), nullData ? nullptr : vertices, vcount,
					it, nullIdx ? nullptr : indices, icount);
		}
		fmt.clear();
		o.kvb("ok", ok);
	}

	void transform(const Value& st)
	{
		Tr t = transformOf(st["t"]);
		if (st.HasMember("name"))
		{
			string name = st["name"].GetString();
			bool ok = multi++ % 2 ? c->setElementTransform(name.c_str(), t) :
				c->setElementTransform(name, t);
			o.kvb("ok", ok);
		}
		else
		{
			c->setElementTransform(st["si"].GetUint(), st["ei"].GetUint(), t);
			o.kvb("ok", true);
		}
		// What every element's transform is now, by position and by name.
		o.key("trs");
		o.open('[');
		const auto& f = c->getVertexFormat();
		for (size_t i = 0; i < f.size(); ++i)
		{
			o.open('[');
			for (size_t j = 0; j < f[i].size(); ++j)
				o.str(nameOf(transformNames, transforms, c->getElementTransform(i, j)));
			o.close(']');
		}
		o.close(']');
		o.key("trn");
		o.open('[');
		for (size_t i = 0; i < f.size(); ++i)
		{
			o.open('[');
			for (size_t j = 0; j < f[i].size(); ++j)
				o.str(nameOf(transformNames, transforms, c->getElementTransform(f[i][j].name)));
			o.close(']');
		}
		o.close(']');
		o.kvs("tru", nameOf(transformNames, transforms, c->getElementTransform("no such element")));
	}

	// "ix" - 1 for the restart value, -2 for anything else that does not fit TLC's integers.
	static long long indexOut(uint32_t v, vfc::IndexType t)
	{
		if (v == (t == vfc::IndexType::UInt16 ? 0xFFFFU : 0xFFFFFFFFU))
			return -1;
		return v > 0x7FFFFFF0U ? -2 : static_cast<long long>(v);
	}

	void observe(Out& o, bool bounds, size_t multi) const
	{
		o.key("bufs");
		o.open('[');
		for (const vfc::IndexData& d : c->getIndices())
		{
			o.open('{');
			o.kvs("ty", nameOf(indexNames, indexTypes, d.type));
			o.kv("b", d.baseVertex);
			o.kv("c", d.count > 0x7FFFFFF0U ? -2 : static_cast<long long>(d.count));
			o.key("i");
			o.open('[');
			uint32_t n = std::min<uint32_t>(d.count, 1000000);
			// Copied byte by byte so that unreadable data shows here.
			size_t sz = d.type == vfc::IndexType::UInt16 ? 2 : 4;
			auto p = static_cast<const uint8_t*>(d.data);
			for (uint32_t k = 0; k < n; ++k)
			{
				uint32_t v = 0;
				for (size_t q = 0; q < sz; ++q)
					v |= static_cast<uint32_t>(p[k*sz + q]) << (8*q);
				o.num(indexOut(v, d.type));
			}
			o.close(']');
			o.close('}');
		}
		o.close(']');
		o.kv("vcount", c->getVertexCount() > 0x7FFFFFF0U ? -2 : c->getVertexCount());
		o.key("verts");
		o.open('[');
		for (auto& v : c->getVertices())
			o.bytes(v.data(), v.size());
		o.close(']');
		if (bounds)
		{
			const auto& f = c->getVertexFormat();
			for (int byName = 0; byName < 2; ++byName)
			{
				o.key(byName ? "bname" : "bpos");
				o.open('[');
				for (size_t i = 0; i < f.size(); ++i)
				{
					o.open('[');
					for (size_t j = 0; j < f[i].size(); ++j)
					{
						vfc::VertexValue mn, mx;
						bool ok = true;
						if (byName)
							ok = multi++ % 2 ? c->getVertexElementBounds(mn, mx, f[i][j].name) :
								c->getVertexElementBounds(mn, mx, f[i][j].name.c_str());
						else
							c->getVertexElementBounds(mn, mx, i, j);
						o.open('{');
						o.kvb("ok", ok);
						o.key("mn");
						o.value(mn);
						o.key("mx");
						o.value(mx);
						o.close('}');
					}
					o.close(']');
				}
				o.close(']');
			}
			vfc::VertexValue mn, mx;
			o.kvb("bunk", c->getVertexElementBounds(mn, mx, "no such element"));
		}
	}

	// Index data handed out earlier, with its content at that time.
	vector<vfc::IndexData> old;
	vector<vector<uint8_t>> oldBytes;

	void checkOld()
	{
		bool ok = true;
		for (size_t i = 0; i < old.size(); ++i)
			ok = ok && (oldBytes[i].empty() ||
				std::memcmp(old[i].data, oldBytes[i].data(), oldBytes[i].size()) == 0);
		o.kvb("old", ok);
		if (old.empty())
		{
			for (const vfc::IndexData& d : c->getIndices())
			{
				old.push_back(d);
				auto p = static_cast<const uint8_t*>(d.data);
				oldBytes.emplace_back();
				if (d.count)
					oldBytes.back().assign(p, p + static_cast<size_t>(d.count)*vfc::indexSize(d.type));
			}
		}
	}

	// The converter read by several threads at the same time: one observation for each.
	void observeAll(const Value& st)
	{
		const size_t n = st["readers"].GetUint();
		bool bounds = st.HasMember("bounds") && st["bounds"].GetBool();
		vector<Out> outs(n);
		vector<std::thread> ts;
		for (size_t k = 0; k < n; ++k)
			ts.emplace_back([&, k] { observe(outs[k], bounds, k); });
		for (auto& t : ts)
			t.join();
		for (size_t k = 0; k < n; ++k)
		{
			o.open('{');
			for (auto& m : st.GetObject())
			{
				o.key(m.name.GetString());
				o.raw(m.value);
			}
			o.kvb("ok", true);
			o.part(outs[k].s);
			o.kvb("old", true);
			o.kv("nerr", 0);
			o.kvb("same", unchanged());
			o.close('}');
		}
	}

	// The result of another converter, added stream by stream: one recorded call for each. "ity" is the
	// index type used where there are indices, "direct" passes the other converter's own memory where it
	// can be used as it is, "last" begins with the last stream.
	void feed(const Value& st, ConvRun& from)
	{
		rapidjson::Document d(rapidjson::kObjectType);
		auto& al = d.GetAllocator();
		const vfc::Converter& c0 = *from.c;
		bool direct = st["direct"].GetBool(), indexed = c0.getIndexType() != vfc::IndexType::NoIndices;
		vfc::IndexType ity = indexed ? indexOf(st["ity"]) : vfc::IndexType::NoIndices;
		bool strip = c0.getPrimitiveType() == vfc::PrimitiveType::LineStrip ||
			c0.getPrimitiveType() == vfc::PrimitiveType::TriangleStrip ||
			c0.getPrimitiveType() == vfc::PrimitiveType::TriangleFan;
		const auto& bufs = c0.getIndices();
		// Indices of a single buffer need no changes.
		bool same = indexed && direct && bufs.size() == 1 && bufs[0].baseVertex == 0;
		if (same)
			ity = bufs[0].type;
		Value idx(rapidjson::kArrayType);
		for (const vfc::IndexData& b : bufs)
		{
			if (strip && !idx.Empty())
				idx.PushBack(-1, al);
			for (uint32_t k = 0; k < b.count; ++k)
			{
				uint32_t v = b.type == vfc::IndexType::UInt16 ? static_cast<const uint16_t*>(b.data)[k] :
					static_cast<const uint32_t*>(b.data)[k];
				long long x = indexOut(v, b.type);
				idx.PushBack(static_cast<int64_t>(x < 0 ? x : x + b.baseVertex), al);
			}
		}
		const auto& f = c0.getVertexFormat();
		// Nothing converted, nothing to add.
		for (size_t q = 0; c0.getVertices().size() == f.size() && q < f.size(); ++q)
		{
			size_t i = st["last"].GetBool() ? f.size() - 1 - q : q;
			Value s(rapidjson::kObjectType), fmt(rapidjson::kArrayType), data(rapidjson::kArrayType), copy;
			for (size_t j = 0; j < f[i].size(); ++j)
			{
				Value e(rapidjson::kObjectType);
				e.AddMember("n", Value(f[i][j].name.c_str(), al), al);
				e.AddMember("l", Value(nameOf(layoutNames, layouts, f[i][j].layout), al), al);
				e.AddMember("t", Value(nameOf(typeNames, types, f[i][j].type), al), al);
				fmt.PushBack(e, al);
			}
			const vector<uint8_t>& bytes = c0.getVertices()[i];
			for (uint8_t b : bytes)
				data.PushBack(b, al);
			s.AddMember("op", "add", al);
			s.AddMember("c", 1, al);
			s.AddMember("fmt", fmt, al);
			s.AddMember("data", data, al);
			s.AddMember("vcount", c0.getVertexCount(), al);
			s.AddMember("itype", Value(nameOf(indexNames, indexTypes, ity), al), al);
			copy.CopyFrom(idx, al);
			s.AddMember("idx", copy, al);
			vertexMemory = direct ? bytes.data() : nullptr;
			indexMemory = same ? bufs[0].data : nullptr;
			step(s);
			vertexMemory = indexMemory = nullptr;
		}
	}

	void step(const Value& st)
	{
		if (st.HasMember("readers"))
			observeAll(st);
		else
		{
			string op = st["op"].GetString();
			errors = 0;
			said.clear();
			o.open('{');
			for (auto& m : st.GetObject())
			{
				// "max" in the form the specification reads.
				o.key(m.name.GetString());
				if (std::strcmp(m.name.GetString(), "max") == 0 && m.value.IsInt())
				{
					o.open('[');
					o.num(-1);
					o.num(-1);
					o.close(']');
				}
				else
					o.raw(m.value);
			}
			Stderr capture(toStderr && op != "new" && op != "move");
			if (op == "new")
				create(st);
			else if (op == "add")
				add(st);
			else if (op == "tr")
				transform(st);
			else if (op == "conv")
				o.kvb("ok", c->convert());
			else if (op == "obs")
			{
				o.kvb("ok", true);
				observe(o, st.HasMember("bounds") && st["bounds"].GetBool(), multi++);
				checkOld();
			}
			else if (op == "poke")
			{
				// The caller changes the indices of its own buffers in place.
				vector<uint8_t> now = indexBytes(st["idx"], indexOf(st["itype"]));
				for (auto& a : adds)
				{
					if (a.buf == st["buf"].GetInt() && a.idx->size == now.size() && !now.empty())
					{
						std::memcpy(a.idx->data(), now.data(), now.size());
						a.idx->copy = now;
					}
				}
				o.kvb("ok", true);
			}
			else if (op == "move")
			{
				if (multi++ % 2)
				{
					std::unique_ptr<vfc::Converter> n(new vfc::Converter(std::move(*c)));
					c = std::move(n);
				}
				else
				{
					vfc::VertexFormat f;
					f.appendElement("zz", vfc::ElementLayout::X8, vfc::ElementType::UInt);
					std::unique_ptr<vfc::Converter> n(new vfc::Converter(f, vfc::IndexType::UInt32,
						vfc::PrimitiveType::PointList, 0, [](const char*) {}));
					uint8_t d[2] = {1, 2};
					n->addVertexStream(f, d, 2);
					n->convert();
					*n = std::move(*c);
					c = std::move(n);
				}
				o.kvb("ok", true);
			}
			errors += capture.end();
			o.kv("nerr", errors);
			if (!said.empty())
			{
				o.key("said");
				o.open('[');
				for (auto& m : said)
					o.str(m);
				o.close(']');
			}
			o.kvb("same", unchanged());
			o.close('}');
		}
	}
};

// ------------------------------------------------------------------ several converters

// "c" is the converter a step is for. The steps of converters below "threads" are run by one thread
// each, all at the same time, and recorded one converter after the other; the others follow in the
// order given.
void runSeveral(Out& o, const Value& sc)
{
	ConvRun::Pool pool;
	for (auto& b : sc["pool"].GetArray())
		pool.blocks.emplace_back(new Block(b.HasMember("itype") ?
			indexBytes(b["data"], indexOf(b["itype"])) : bytesOf(b["data"])));
	for (auto& f : sc["formats"].GetArray())
		pool.formats.push_back(formatOf(f));
	const auto& steps = sc["steps"];
	const int threads = sc["threads"].GetInt();
	vector<Out> outs(static_cast<size_t>(threads));
	vector<std::unique_ptr<ConvRun>> runs;
	for (int k = 0; k < 8; ++k)
	{
		runs.emplace_back(new ConvRun(k < threads ? outs[static_cast<size_t>(k)] : o));
		runs.back()->pool = &pool;
	}
	std::atomic<int> ready(0);
	vector<std::thread> ts;
	for (int k = 0; k < threads; ++k)
	{
		ts.emplace_back([&, k]
		{
			++ready;
			while (ready < threads)
				std::this_thread::yield();
			for (auto& st : steps.GetArray())
			{
				if (st["c"].GetInt() == k)
					runs[static_cast<size_t>(k)]->step(st);
			}
		});
	}
	for (auto& t : ts)
		t.join();
	for (auto& out : outs)
	{
		o.part(out.s);
	}
	for (auto& st : steps.GetArray())
	{
		if (st["c"].GetInt() >= threads)
			runs[st["c"].GetUint()]->step(st);
	}
}

// ------------------------------------------------------------------ large meshes (summarised)

// Non-indexed or indexed meshes too large to record: distinct vertices 0..n-1 in order (points), or
// a strip. Records buffer summaries only.
void runLarge(Out& o, const Value& steps)
{
	for (auto& st : steps.GetArray())
	{
		uint32_t n = st["n"].GetUint();
		vfc::PrimitiveType pt = primOf(st["prim"]);
		vfc::IndexType it = indexOf(st["itype"]);
		vfc::VertexFormat f;
		f.appendElement("p", vfc::ElementLayout::X32, vfc::ElementType::UInt);
		// "mod": so many vertices, used again and again through indices of the type "ity".
		uint32_t mod = st.HasMember("mod") ? st["mod"].GetUint() : n;
		vfc::IndexType ity = st.HasMember("ity") ? indexOf(st["ity"]) : vfc::IndexType::NoIndices;
		vector<uint32_t> data(mod);
		for (uint32_t i = 0; i < mod; ++i)
			data[i] = i;
		vector<uint8_t> idx(vfc::indexSize(ity)*static_cast<size_t>(n));
		for (uint32_t i = 0; !idx.empty() && i < n; ++i)
		{
			uint32_t v = i % mod;
			std::memcpy(idx.data() + vfc::indexSize(ity)*static_cast<size_t>(i), &v, vfc::indexSize(ity));
		}
		// "wide": so many 32 byte elements more, the same in every vertex.
		unsigned wide = st.HasMember("wide") ? st["wide"].GetUint() : 0;
		vfc::VertexFormat pad, outf;
		for (unsigned i = 0; i < wide; ++i)
			pad.appendElement("pad" + std::to_string(i), vfc::ElementLayout::X64Y64Z64W64, vfc::ElementType::Float);
		outf = pad;
		outf.appendElement("p", vfc::ElementLayout::X32, vfc::ElementType::UInt);
		vector<uint8_t> padData(pad.stride());
		vector<uint32_t> padIdx(wide ? n : 0);
		int errors = 0;
		vfc::Converter c(outf, it, pt, st["patch"].GetUint(), [&errors](const char*) { ++errors; });
		o.open('{');
		for (auto& m : st.GetObject())
		{
			o.key(m.name.GetString());
			o.raw(m.value);
		}
		bool ok = c.isValid() && c.addVertexStream(f, data.data(), mod, ity, idx.empty() ? nullptr : idx.data(), n) &&
			(!wide || c.addVertexStream(pad, padData.data(), 1, vfc::IndexType::UInt32, padIdx.data(), n)) && c.convert();
		o.kvb("ok", ok);
		o.kv("nerr", errors);
		o.kv("vcount", c.getVertexCount());
		vfc::VertexValue mn, mx;
		o.kvb("any", c.getVertexElementBounds(mn, mx, "p"));
		o.key("mn");
		o.value(mn);
		o.key("mx");
		o.value(mx);
		// Runs of consecutive input vertices in the output.
		o.key("vruns");
		o.open('[');
		{
			long long start = -1, len = 0;
			int runs = 0;
			for (uint32_t v = 0; v < c.getVertexCount(); ++v)
			{
				uint32_t got;
				std::memcpy(&got, c.getVertices()[0].data() + static_cast<size_t>(v)*outf.stride() + pad.stride(), 4);
				if (len > 0 && got == start + len)
				{
					++len;
					continue;
				}
				if (len > 0 && runs++ < 50)
				{
					o.open('[');
					o.num(start);
					o.num(len);
					o.close(']');
				}
				start = got;
				len = 1;
			}
			if (len > 0)
			{
				o.open('[');
				o.num(start);
				o.num(len);
				o.close(']');
			}
		}
		o.close(']');
		o.key("bufs");
		o.open('[');
		for (const vfc::IndexData& d : c.getIndices())
		{
			o.open('{');
			o.kv("b", d.baseVertex);
			o.kv("c", d.count);
			o.kvs("ty", nameOf(indexNames, indexTypes, d.type));
			// Runs of indices whose output vertices are consecutive input positions.
			o.key("runs");
			o.open('[');
			const uint8_t* verts = c.getVertices().empty() ? nullptr : c.getVertices()[0].data() + pad.stride();
			long long start = -1, len = 0;
			uint32_t maxIndex = 0;
			bool oob = false;
			int runs = 0;
			for (uint32_t k = 0; k < d.count; ++k)
			{
				uint32_t v = vfc::getIndexValue(d.type, d.data, k);
				maxIndex = std::max(maxIndex, v);
				uint64_t vi = static_cast<uint64_t>(v) + static_cast<uint32_t>(d.baseVertex);
				long long x = -1;
				if (vi < c.getVertexCount())
				{
					uint32_t got;
					std::memcpy(&got, verts + vi*outf.stride(), 4);
					x = got;
				}
				else
					oob = true;
				if (len > 0 && x == start + len)
					++len;
				else
				{
					if (len > 0 && runs++ < 50)
					{
						o.open('[');
						o.num(start);
						o.num(len);
						o.close(']');
					}
					start = x;
					len = 1;
				}
			}
			if (len > 0)
			{
				o.open('[');
				o.num(start);
				o.num(len);
				o.close(']');
			}
			o.close(']');
			o.kv("maxi", maxIndex > 0x7FFFFFF0U ? -2 : maxIndex);
			o.kvb("oob", oob);
			o.close('}');
		}
		o.close(']');
		o.close('}');
	}
}

// ------------------------------------------------------------------ vertex formats and tables

void writeFormat(Out& o, const vfc::VertexFormat& f)
{
	o.open('{');
	o.key("els");
	o.open('[');
	for (const vfc::VertexElement& e : f)
	{
		o.open('{');
		o.kvs("n", e.name);
		o.kvs("l", nameOf(layoutNames, layouts, e.layout));
		o.kvs("t", nameOf(typeNames, types, e.type));
		o.kv("o", e.offset);
		o.close('}');
	}
	o.close(']');
	o.kv("stride", f.stride());
	o.kv("size", static_cast<long long>(f.size()));
	o.kvb("empty", f.empty());
	o.close('}');
}

void runFormat(Out& o, const Value& steps)
{
	vfc::VertexFormat f[2];
	for (auto& st : steps.GetArray())
	{
		string op = st["op"].GetString();
		o.open('{');
		for (auto& m : st.GetObject())
		{
			o.key(m.name.GetString());
			o.raw(m.value);
		}
		unsigned w = st["w"].GetUint();
		vfc::VertexFormat& cur = f[w];
		if (op == "append")
		{
			auto r = cur.appendElement(st["n"].GetString(), layoutOf(st["l"]), typeOf(st["t"]));
			o.kvs("res", r == vfc::VertexFormat::AddResult::Succeeded ? "ok" :
				(r == vfc::VertexFormat::AddResult::NameNotUnique ? "dup" :
				(r == vfc::VertexFormat::AddResult::ElementInvalid ? "inv" : "?")));
		}
		else if (op == "fill")
		{
			// Elements e0, e1, ...
			bool all = true;
			for (unsigned i = 0; i < st["k"].GetUint(); ++i)
				all = cur.appendElement("e" + std::to_string(i), layoutOf(st["l"]), typeOf(st["t"])) ==
					vfc::VertexFormat::AddResult::Succeeded && all;
			o.kvs("res", all ? "ok" : "?");
		}
		else if (op == "clear")
		{
			cur.clear();
			o.kvs("res", "ok");
		}
		else if (op == "copy")
		{
			f[1 - w] = cur;
			o.kvs("res", "ok");
		}
		else if (op == "find")
		{
			auto it1 = cur.find(st["n"].GetString());
			auto it2 = cur.find(string(st["n"].GetString()));
			long long p1 = it1 == cur.end() ? 0 : it1 - cur.begin() + 1;
			long long p2 = it2 == cur.end() ? 0 : it2 - cur.begin() + 1;
			o.kvs("res", "ok");
			o.kv("pos", p1);
			o.kv("pos2", p2);
		}
		else
			o.kvs("res", "ok");
		// Everything observable after the step.
		o.key("f");
		o.open('[');
		writeFormat(o, f[0]);
		writeFormat(o, f[1]);
		o.close(']');
		// The other ways to reach the elements agree.
		bool agree = true;
		for (auto& x : f)
		{
			for (size_t i = 0; i < x.size(); ++i)
			{
				agree = agree && &x[i] == &x.at(i) && &*(x.begin() + static_cast<std::ptrdiff_t>(i)) == &x[i] &&
					&*(x.cbegin() + static_cast<std::ptrdiff_t>(i)) == &x[i] &&
					&*(x.rbegin() + static_cast<std::ptrdiff_t>(x.size() - 1 - i)) == &x[i] &&
					&*(x.crbegin() + static_cast<std::ptrdiff_t>(x.size() - 1 - i)) == &x[i];
			}
			if (!x.empty())
				agree = agree && &x.front() == &x[0] && &x.back() == &x[x.size() - 1];
			agree = agree && static_cast<size_t>(x.end() - x.begin()) == x.size() &&
				static_cast<size_t>(x.cend() - x.cbegin()) == x.size() &&
				static_cast<size_t>(x.rend() - x.rbegin()) == x.size() &&
				static_cast<size_t>(x.crend() - x.crbegin()) == x.size();
			bool thrown = false;
			try
			{
				x.at(x.size());
			}
			catch (const std::out_of_range&)
			{
				thrown = true;
			}
			agree = agree && thrown;
		}
		o.kvb("agree", agree);
		o.kvb("c01", f[0].containsElements(f[1]));
		o.kvb("c10", f[1].containsElements(f[0]));
		o.kvb("eq", f[0] == f[1]);
		o.kvb("ne", f[0] != f[1]);
		o.close('}');
	}
}

void runTables(Out& o, const Value& steps)
{
	for (auto& st : steps.GetArray())
	{
		string op = st["op"].GetString();
		o.open('{');
		for (auto& m : st.GetObject())
		{
			o.key(m.name.GetString());
			o.raw(m.value);
		}
		if (op == "name")
		{
			// Always at the same address, as in a caller's own buffer.
			static vector<char> same(256);
			size_t len = st["n"].GetStringLength() + 1;
			if (same.size() < len)
				same.resize(len);
			std::memcpy(same.data(), st["n"].GetString(), len);
			const char* n = same.data();
			o.kvs("layout", nameOf(layoutNames, layouts, vfc::elementLayoutFromName(n)));
			o.kvs("type", nameOf(typeNames, types, vfc::elementTypeFromName(n)));
			o.kvs("prim", nameOf(primNames, prims, vfc::primitiveTypeFromName(n)));
		}
		else if (op == "null")
		{
			o.kvs("layout", nameOf(layoutNames, layouts, vfc::elementLayoutFromName(nullptr)));
			o.kvs("type", nameOf(typeNames, types, vfc::elementTypeFromName(nullptr)));
			o.kvs("prim", nameOf(primNames, prims, vfc::primitiveTypeFromName(nullptr)));
			auto s = [](const char* x) { return string(x ? x : "(null)"); };
			o.kvs("ln", s(vfc::elementLayoutName(vfc::ElementLayout::Invalid)));
			o.kvs("lc", s(vfc::elementLayoutName(vfc::ElementLayout::Invalid, true)));
			o.kvs("tn", s(vfc::elementTypeName(vfc::ElementType::Invalid)));
			o.kvs("pn", s(vfc::primitiveTypeName(vfc::PrimitiveType::Invalid)));
			o.kv("size", vfc::elementLayoutSize(vfc::ElementLayout::Invalid));
			o.kv("nl", vfc::elementLayoutCount);
			o.kv("nt", vfc::elementTypeCount);
			o.kv("np", vfc::primitiveTypeCount);
		}
		else if (op == "layout")
		{
			vfc::ElementLayout l = layoutOf(st["l"]);
			o.kvs("name", vfc::elementLayoutName(l));
			o.kvs("color", vfc::elementLayoutName(l, true));
			o.kv("size", vfc::elementLayoutSize(l));
		}
		else if (op == "type")
			o.kvs("name", vfc::elementTypeName(typeOf(st["t"])));
		else if (op == "prim")
			o.kvs("name", vfc::primitiveTypeName(primOf(st["p"])));
		else if (op == "valid")
			o.kvb("ok", vfc::isElementValid(layoutOf(st["l"]), typeOf(st["t"])));
		else if (op == "count")
		{
			uint32_t n = (static_cast<uint32_t>(st["c"][0].GetUint()) << 16) | st["c"][1].GetUint();
			o.kvb("ok", vfc::isVertexCountValid(primOf(st["p"]), n, st["patch"].GetUint()));
		}
		o.close('}');
	}
}

// An array of so many indices that only the parts in use are backed by memory. Positions are
// [high, low] with 16 bits in low.
void runBigIndex(Out& o, const Value& st, const string& op, vfc::IndexType& type, std::unique_ptr<Sparse>& space)
{
	auto at = [](const Value& v) { return static_cast<size_t>(v[0].GetUint())*65536 + v[1].GetUint(); };
	if (op == "bnew")
	{
		type = indexOf(st["itype"]);
		space.reset(new Sparse(at(st["n"])*vfc::indexSize(type)));
	}
	o.kvb("there", space->base != nullptr);
	if (!space->base)
		return;
	if (op == "bset")
		o.kvb("ok", vfc::setIndexValue(type, space->base, at(st["i"]), pairOf(st["val"])));
	else if (op == "bget")
	{
		o.key("v");
		o.u32(vfc::getIndexValue(type, space->base, at(st["i"])));
	}
	else if (op == "bpeek")
	{
		size_t sz = type == vfc::IndexType::UInt16 ? 2 : 4;
		o.key("vs");
		o.open('[');
		for (auto& p : st["at"].GetArray())
		{
			uint32_t v = 0;
			for (size_t q = 0; q < sz; ++q)
				v |= static_cast<uint32_t>(space->base[at(p)*sz + q]) << (8*q);
			o.u32(v);
		}
		o.close(']');
	}
}

void runIndex(Out& o, const Value& steps)
{
	std::unique_ptr<Block> block;
	std::unique_ptr<Sparse> space;
	vfc::IndexType type = vfc::IndexType::NoIndices;
	for (auto& st : steps.GetArray())
	{
		string op = st["op"].GetString();
		o.open('{');
		for (auto& m : st.GetObject())
		{
			o.key(m.name.GetString());
			o.raw(m.value);
		}
		if (op[0] == 'b')
		{
			runBigIndex(o, st, op, type, space);
			o.close('}');
			continue;
		}
		auto u = [](const Value& v)
		{
			return (static_cast<uint32_t>(v[0].GetUint()) << 16) | v[1].GetUint();
		};
		if (op == "new")
		{
			type = indexOf(st["itype"]);
			block.reset(new Block(bytesOf(st["data"])));
			o.kv("size", vfc::indexSize(type));
			o.key("max");
			o.u32(vfc::maxIndexValue(type));
			o.key("restart");
			o.u32(vfc::primitiveRestartIndexValue(type));
		}
		else
		{
			void* p = st.HasMember("null") && st["null"].GetBool() ? nullptr : block->data();
			size_t i = st["i"].GetUint();
			if (op == "get")
			{
				o.key("v");
				if (st.HasMember("def"))
					o.u32(vfc::getIndexValue(type, p, i, u(st["def"])));
				else
					o.u32(vfc::getIndexValue(type, p, i));
			}
			else
				o.kvb("ok", vfc::setIndexValue(type, p, i, u(st["val"])));
			o.key("mem");
			o.bytes(block->data(), block->size);
		}
		o.close('}');
	}
}

// ------------------------------------------------------------------ codec

void runCodec(Out& o, const Value& steps)
{
	for (auto& st : steps.GetArray())
	{
		string op = st["op"].GetString();
		vfc::ElementLayout l = layoutOf(st["l"]);
		vfc::ElementType t = typeOf(st["t"]);
		size_t size = l == vfc::ElementLayout::Invalid ? 32 : vfc::elementLayoutSize(l);
		size_t mis = st.HasMember("mis") ? st["mis"].GetUint() : 0;
		o.open('{');
		o.kvs("op", op);
		o.kvs("l", st["l"].GetString());
		o.kvs("t", st["t"].GetString());
		if (op == "dec" || op == "rt")
		{
			Block b(bytesOf(st["bytes"]), mis);
			vfc::VertexValue v(11, 12, 13, 14);
			bool ok = v.fromData(b.data(), l, t);
			o.key("bytes");
			o.raw(st["bytes"]);
			o.kvb("ok", ok);
			o.key("val");
			o.value(v);
			o.kvb("same", b.unchanged());
			if (op == "rt")
			{
				Block q(vector<uint8_t>(size, 0xA5), mis);
				o.kvb("ok2", v.toData(q.data(), l, t));
				o.key("back");
				o.bytes(q.data(), q.size);
			}
		}
		else
		{
			// One spare byte on either side shows what is written.
			vector<uint8_t> fill(size + 16, static_cast<uint8_t>(st.HasMember("fill") ? st["fill"].GetUint() : 0xA5));
			Block q(fill, mis);
			vfc::VertexValue v = valueOf(st["v"]);
			bool ok;
			if (op == "encb")
			{
				vfc::VertexValue mn = valueOf(st["mn"]), mx = valueOf(st["mx"]);
				ok = v.toData(q.data() + 8, l, t, mn, mx);
				o.key("mn");
				o.value(mn);
				o.key("mx");
				o.value(mx);
			}
			else
				ok = v.toData(q.data() + 8, l, t);
			o.kvb("ok", ok);
			o.key("v");
			o.value(v);
			o.key("out");
			o.bytes(q.data() + 8, size);
			bool guard = true;
			for (size_t i = 0; i < 8; ++i)
				guard = guard && q.data()[i] == fill[0] && q.data()[8 + size + i] == fill[0];
			o.kvb("guard", guard);
			bool untouched = true;
			for (size_t i = 0; i < size; ++i)
				untouched = untouched && q.data()[8 + i] == fill[0];
			o.kvb("untouched", untouched);
			// Exactly sized target: the sanitizer sees a write past either end.
			Block e(vector<uint8_t>(size, 0x5A), mis);
			bool ok2 = op == "encb" ? v.toData(e.data(), l, t, valueOf(st["mn"]), valueOf(st["mx"])) :
				v.toData(e.data(), l, t);
			o.kvb("rep", ok2 == ok && (!ok || size == 0 || std::memcmp(e.data(), q.data() + 8, size) == 0));
		}
		o.close('}');
	}
}

void runValue(Out& o, const Value& steps)
{
	vfc::VertexValue mn = vfc::VertexValue::initialBoundsMin, mx = vfc::VertexValue::initialBoundsMax;
	vfc::VertexValue regs[3];
	for (auto& st : steps.GetArray())
	{
		string op = st["op"].GetString();
		o.open('{');
		for (auto& m : st.GetObject())
		{
			if (std::strcmp(m.name.GetString(), "v") == 0 || std::strcmp(m.name.GetString(), "x") == 0)
				continue;
			o.key(m.name.GetString());
			o.raw(m.value);
		}
		auto reg = [&st, &regs](const char* n) -> vfc::VertexValue& { return regs[st[n].GetUint() - 1]; };
		if (op == "grow" || op == "growr")
		{
			vfc::VertexValue v = op == "grow" ? valueOf(st["v"]) : reg("a");
			v.expandBounds(mn, mx);
			if (op == "grow")
			{
				o.key("v");
				o.value(v);
			}
			o.key("mn");
			o.value(mn);
			o.key("mx");
			o.value(mx);
			vfc::VertexValue d;
			o.key("def");
			o.value(d);
		}
		else if (op == "make")
		{
			auto x = [&st](unsigned i) { return doubleOf(st["v"][i]); };
			switch (st["v"].Size())
			{
				case 0: reg("a") = vfc::VertexValue(); break;
				case 1: reg("a") = vfc::VertexValue(x(0)); break;
				case 2: reg("a") = vfc::VertexValue(x(0), x(1)); break;
				case 3: reg("a") = vfc::VertexValue(x(0), x(1), x(2)); break;
				default: reg("a") = vfc::VertexValue(x(0), x(1), x(2), x(3));
			}
			o.key("v");
			o.open('[');
			for (unsigned i = 0; i < st["v"].Size(); ++i)
				o.dbl(x(i));
			o.close(']');
		}
		else if (op == "set")
		{
			double x = doubleOf(st["x"]);
			reg("a")[st["i"].GetUint()] = x;
			o.key("x");
			o.dbl(x);
		}
		else if (op == "copy")
			reg("a") = static_cast<const vfc::VertexValue&>(reg("b"));
		else if (op == "init")
		{
			vfc::VertexValue copy(static_cast<const vfc::VertexValue&>(reg("b")));
			reg("a") = std::move(copy);
		}
		else if (op == "cmp")
		{
			const vfc::VertexValue& a = reg("a");
			const vfc::VertexValue& b = reg("b");
			o.kvb("eq", a == b);
			o.kvb("ne", a != b);
		}
		if (op != "grow")
		{
			o.key("regs");
			o.open('[');
			for (const auto& r : regs)
				o.value(r);
			o.close(']');
		}
		o.close('}');
	}
}

// ------------------------------------------------------------------ tool units

string textOf(const Value& v)
{
	if (v.IsString())
		return string(v.GetString(), v.GetStringLength());
	string r;
	for (auto& b : v.GetArray())
		r.push_back(static_cast<char>(b.GetUint()));
	return r;
}

void runBase64(Out& o, const Value& steps)
{
	for (auto& st : steps.GetArray())
	{
		string op = st["op"].GetString();
		o.open('{');
		for (auto& m : st.GetObject())
		{
			o.key(m.name.GetString());
			o.raw(m.value);
		}
		if (op == "enc")
		{
			Block b(bytesOf(st["bytes"]));
			string r = base64::encode(b.data(), b.size);
			o.key("text");
			o.bytes(r.data(), r.size());
		}
		else if (op == "dec")
		{
			// The text in an exactly sized block with its terminator.
			string t = textOf(st["text"]);
			vector<uint8_t> raw(t.begin(), t.end());
			raw.push_back(0);
			Block b(raw);
			vector<uint8_t> out = bytesOf(st["pre"]);
			bool ok = base64::decode(out, reinterpret_cast<const char*>(b.data()));
			o.kvb("ok", ok);
			o.key("out");
			o.bytes(out.data(), out.size());
		}
		else
		{
			vector<uint8_t> out;
			o.kvb("ok", base64::decode(out, nullptr));
			string r = base64::encode(nullptr, 0);
			o.key("text");
			o.bytes(r.data(), r.size());
		}
		o.close('}');
	}
}

void runPath(Out& o, const Value& steps)
{
	for (auto& st : steps.GetArray())
	{
		o.open('{');
		for (auto& m : st.GetObject())
		{
			o.key(m.name.GetString());
			o.raw(m.value);
		}
		string a = textOf(st["a"]), b = textOf(st["b"]);
		auto put = [&o](const char* k, const string& v)
		{
			o.key(k);
			o.bytes(v.data(), v.size());
		};
		o.kvb("abs", path::isAbsolute(a));
		put("file", path::getFileName(a));
		put("dir", path::getParentDirectory(a));
		put("join", path::join(a, b));
		put("re", path::join(path::getParentDirectory(a), path::getFileName(a)));
		o.close('}');
	}
}

void writeFormatDesc(Out& o, const vfc::VertexFormat& f)
{
	o.open('[');
	for (const vfc::VertexElement& e : f)
	{
		o.open('{');
		o.kvs("n", e.name);
		o.kvs("l", nameOf(layoutNames, layouts, e.layout));
		o.kvs("t", nameOf(typeNames, types, e.type));
		o.kv("o", e.offset);
		o.close('}');
	}
	o.close(']');
}

void runConfig(Out& o, const Value& steps)
{
	for (auto& st : steps.GetArray())
	{
		o.open('{');
		for (auto& m : st.GetObject())
		{
			if (std::strcmp(m.name.GetString(), "text") == 0)
				continue;
			o.key(m.name.GetString());
			o.raw(m.value);
		}
		string text = textOf(st["text"]);
		if (st.HasMember("rep"))
		{
			// Long texts: "text" repeated "rep" times followed by "tail".
			string one = text;
			text.clear();
			for (unsigned i = 0; i < st["rep"].GetUint(); ++i)
				text += one;
			text += textOf(st["tail"]);
		}
		int errors = 0;
		vector<string> said;
		auto ef = [&errors, &said](const char* m)
		{
			if (m && *m)
			{
				++errors;
				said.push_back(m);
			}
		};
		ConfigFile c;
		bool ok;
		if (st.HasMember("stream") && st["stream"].GetBool())
		{
			std::istringstream is(text);
			ok = c.load(is, "cfg", ef);
		}
		else
		{
			vector<uint8_t> raw(text.begin(), text.end());
			raw.push_back(0);
			Block b(raw);
			ok = c.load(reinterpret_cast<const char*>(b.data()), "cfg", ef);
		}
		o.kvb("ok", ok);
		o.kv("nerr", errors);
		if (text.size() < 20000)
		{
			o.key("said");
			o.open('[');
			for (auto& m : said)
				o.str(m);
			o.close(']');
		}
		if (ok)
		{
			o.key("cfg");
			o.open('{');
			o.key("out");
			o.open('[');
			for (auto& f : c.getVertexFormat())
				writeFormatDesc(o, f);
			o.close(']');
			o.kvs("itype", nameOf(indexNames, indexTypes, c.getIndexType()));
			o.kvs("prim", nameOf(primNames, prims, c.getPrimitiveType()));
			o.kv("patch", c.getPatchPoints());
			o.key("streams");
			o.open('[');
			for (auto& s : c.getVertexStreams())
			{
				o.open('{');
				o.key("fmt");
				writeFormatDesc(o, s.vertexFormat);
				o.kvs("vdata", s.vertexData);
				o.kvs("itype", nameOf(indexNames, indexTypes, s.indexType));
				o.kvs("idata", s.indexType == vfc::IndexType::NoIndices ? string() : s.indexData);
				o.close('}');
			}
			o.close(']');
			o.key("trs");
			o.open('[');
			for (auto& t : c.getTransforms())
			{
				o.open('{');
				o.kvs("n", t.first);
				o.kvs("t", nameOf(transformNames, transforms, t.second));
				o.close('}');
			}
			o.close(']');
			o.close('}');
		}
		o.close('}');
	}
}

// A parsed JSON document in a tagged form: every value is {"k": kind, "v": content}.
void writeTagged(Out& o, const Value& v)
{
	o.open('{');
	switch (v.GetType())
	{
		case rapidjson::kNullType:
			o.kvs("k", "null");
			break;
		case rapidjson::kFalseType:
		case rapidjson::kTrueType:
			o.kvs("k", "bool");
			o.kvb("v", v.GetBool());
			break;
		case rapidjson::kObjectType:
			o.kvs("k", "obj");
			o.key("v");
			o.open('[');
			for (auto& m : v.GetObject())
			{
				o.open('{');
				o.kvs("n", string(m.name.GetString(), m.name.GetStringLength()));
				o.key("x");
				writeTagged(o, m.value);
				o.close('}');
			}
			o.close(']');
			break;
		case rapidjson::kArrayType:
			o.kvs("k", "arr");
			o.key("v");
			o.open('[');
			for (auto& m : v.GetArray())
				writeTagged(o, m);
			o.close(']');
			break;
		case rapidjson::kStringType:
			o.kvs("k", "str");
			o.kvs("v", string(v.GetString(), v.GetStringLength()));
			break;
		case rapidjson::kNumberType:
			o.kvs("k", v.IsInt() || v.IsUint() || v.IsInt64() ? "int" : "num");
			o.key("v");
			o.dbl(v.GetDouble());
			break;
	}
	o.close('}');
}

void runResult(Out& o, const Value& steps)
{
	for (auto& st : steps.GetArray())
	{
		vector<vfc::VertexFormat> fmts;
		for (auto& f : st["out"].GetArray())
			fmts.push_back(formatOf(f));
		vector<vector<Bounds>> bounds;
		for (auto& bs : st["bounds"].GetArray())
		{
			bounds.emplace_back();
			for (auto& b : bs.GetArray())
				bounds.back().push_back(Bounds{valueOf(b["mn"]), valueOf(b["mx"])});
		}
		vector<string> vdata, idata;
		for (auto& s : st["vdata"].GetArray())
			vdata.push_back(textOf(s));
		vector<IndexFileData> ifd;
		idata.reserve(st["bufs"].Size());
		for (auto& b : st["bufs"].GetArray())
		{
			idata.push_back(textOf(b["d"]));
			ifd.push_back(IndexFileData{pairOf(b["c"]), static_cast<int32_t>(pairOf(b["b"])), idata.back().c_str()});
		}
		uint32_t vcount = pairOf(st["vcount"]);
		string r = resultFile(fmts, bounds, vdata, vcount, indexOf(st["itype"]), ifd);
		o.open('{');
		for (auto& m : st.GetObject())
		{
			if (std::strcmp(m.name.GetString(), "bounds") == 0)
				continue;
			o.key(m.name.GetString());
			o.raw(m.value);
		}
		o.key("bounds");
		o.open('[');
		for (auto& bs : bounds)
		{
			o.open('[');
			for (auto& b : bs)
			{
				o.open('{');
				o.key("mn");
				o.value(b.min);
				o.key("mx");
				o.value(b.max);
				o.close('}');
			}
			o.close(']');
		}
		o.close(']');
		o.kvb("empty", r.empty());
		rapidjson::Document d;
		d.Parse<rapidjson::kParseFullPrecisionFlag | rapidjson::kParseValidateEncodingFlag>(r.c_str(), r.size());
		o.kvb("wf", !d.HasParseError());
		if (!d.HasParseError())
		{
			o.key("doc");
			writeTagged(o, d);
		}
		o.close('}');
	}
}

// ------------------------------------------------------------------ driver

void runScenario(Out& o, const Value& sc)
{
	string fam = sc["fam"].GetString();
	o.open('{');
	o.key("id");
	o.raw(sc["id"]);
	o.kvs("fam", fam);
	if (sc.HasMember("tag"))
		o.kvs("tag", sc["tag"].GetString());
	o.key("steps");
	o.open('[');
	const Value& steps = sc["steps"];
	if (fam == "conv" && sc.HasMember("pool"))
		runSeveral(o, sc);
	else if (fam == "conv")
	{
		ConvRun r0(o), r1(o);
		for (auto& st : steps.GetArray())
		{
			if (std::strcmp(st["op"].GetString(), "feed") == 0)
				r1.feed(st, r0);
			else
				(st.HasMember("c") && st["c"].GetInt() == 1 ? r1 : r0).step(st);
		}
	}
	else if (fam == "large")
		runLarge(o, steps);
	else if (fam == "fmt")
		runFormat(o, steps);
	else if (fam == "tab")
		runTables(o, steps);
	else if (fam == "idx")
		runIndex(o, steps);
	else if (fam == "codec")
		runCodec(o, steps);
	else if (fam == "value")
		runValue(o, steps);
	else if (fam == "b64")
		runBase64(o, steps);
	else if (fam == "path")
		runPath(o, steps);
	else if (fam == "cfg")
		runConfig(o, steps);
	else if (fam == "res")
		runResult(o, steps);
	o.close(']');
	o.kvs("died", "");
	o.close('}');
}

} // namespace

int main(int argc, char** argv)
{
	if (argc < 3)
		return 2;
	int timeout = argc > 3 ? std::atoi(argv[3]) : 20;
	vector<string> lines;
	{
		std::ifstream in(argv[1]);
		string l;
		while (std::getline(in, l))
		{
			if (!l.empty())
				lines.push_back(l);
		}
	}
	FILE* out = std::fopen(argv[2], "w");
	if (!out)
		return 2;
	int fd = fileno(out);
	auto shared = static_cast<volatile size_t*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE,
		MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	shared[0] = 0; // Scenarios completed and written.
	size_t deaths = 0;
	while (shared[0] < lines.size())
	{
		pid_t pid = fork();
		if (pid == 0)
		{
			rlimit core{0, 0};
			setrlimit(RLIMIT_CORE, &core);
			string buf;
			size_t pending = 0;
			auto flush = [&]()
			{
				size_t off = 0;
				while (off < buf.size())
				{
					ssize_t n = write(fd, buf.data() + off, buf.size() - off);
					if (n <= 0)
						_exit(3);
					off += static_cast<size_t>(n);
				}
				buf.clear();
				shared[0] = shared[0] + pending;
				pending = 0;
			};
			// After a death the scenarios are written one by one, so that the next death is exact.
			size_t batch = deaths ? 1 : 64;
			for (size_t i = shared[0]; i < lines.size(); ++i)
			{
				alarm(static_cast<unsigned>(timeout));
				rapidjson::Document d;
				d.Parse(lines[i].c_str());
				if (d.HasParseError())
					_exit(4);
				Out o;
				runScenario(o, d);
				buf += o.s;
				buf += '\n';
				++pending;
				if (pending >= batch)
					flush();
			}
			flush();
			_exit(0);
		}
		int status = 0;
		waitpid(pid, &status, 0);
		if (WIFEXITED(status) && WEXITSTATUS(status) == 0)
			break;
		if (WIFEXITED(status) && (WEXITSTATUS(status) == 3 || WEXITSTATUS(status) == 4))
		{
			std::fprintf(stderr, "harness: bad scenario or trace file\n");
			return 2;
		}
		if (deaths++ == 0)
			continue; // Repeat the batch one by one to find which scenario it was.
		size_t i = shared[0];
		rapidjson::Document d;
		d.Parse(lines[i].c_str());
		string how = WIFSIGNALED(status) ? (WTERMSIG(status) == SIGALRM ? "hang" :
			"signal " + std::to_string(WTERMSIG(status))) :
			"exit " + std::to_string(WEXITSTATUS(status));
		Out o;
		o.open('{');
		o.key("id");
		o.raw(d["id"]);
		o.kvs("fam", d["fam"].GetString());
		if (d.HasMember("tag"))
			o.kvs("tag", d["tag"].GetString());
		o.key("steps");
		o.open('[');
		o.close(']');
		o.kvs("died", how);
		o.close('}');
		o.s += '\n';
		if (write(fd, o.s.data(), o.s.size()) < 0)
			return 2;
		shared[0] = i + 1;
		if (deaths > 200)
		{
			std::fprintf(stderr, "harness: too many deaths\n");
			// The scenarios not run are recorded as such.
			break;
		}
	}
	std::fclose(out);
	return 0;
}
