// Stand-in for vnx-base: the subset of its API that mmx-node uses, in one header.
// It is infrastructure for running the real /repo sources; it is not itself under test.
#ifndef SHIM_VNX_CORE_H
#define SHIM_VNX_CORE_H

#include <cstdint>
#include <cstddef>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <array>
#include <list>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <deque>
#include <queue>
#include <memory>
#include <mutex>
#include <shared_mutex>
#include <condition_variable>
#include <thread>
#include <atomic>
#include <functional>
#include <optional>
#include <iostream>
#include <fstream>
#include <sstream>
#include <iomanip>
#include <stdexcept>
#include <algorithm>
#include <limits>
#include <random>
#include <tuple>
#include <utility>
#include <type_traits>

#ifndef VNX_EXPORT
#define VNX_EXPORT
#endif
#define VNX_MAX_BYTE_CODE_SIZE 4096
#define VNX_BUFFER_SIZE 8192

namespace vnx {

enum : uint16_t {
	CODE_NULL = 0, CODE_UINT8 = 1, CODE_UINT16 = 2, CODE_UINT32 = 3, CODE_UINT64 = 4,
	CODE_INT8 = 5, CODE_INT16 = 6, CODE_INT32 = 7, CODE_INT64 = 8, CODE_FLOAT = 9, CODE_DOUBLE = 10,
	CODE_ARRAY = 11, CODE_LIST = 12, CODE_MAP = 13, CODE_ANY = 16, CODE_DYNAMIC = 17, CODE_STRUCT = 19,
	CODE_TUPLE = 23, CODE_OBJECT = 24, CODE_BOOL = 31, CODE_STRING = 32, CODE_OPTIONAL = 33,
	CODE_ALT_NULL = 0xFF00, CODE_ALT_UINT8 = 1 << 8, CODE_ALT_UINT16 = 2 << 8, CODE_ALT_UINT32 = 3 << 8, CODE_ALT_UINT64 = 4 << 8,
	CODE_ALT_INT8 = 5 << 8, CODE_ALT_INT16 = 6 << 8, CODE_ALT_INT32 = 7 << 8, CODE_ALT_INT64 = 8 << 8, CODE_ALT_FLOAT = 9 << 8, CODE_ALT_DOUBLE = 10 << 8,
	CODE_ALT_ARRAY = 11 << 8, CODE_ALT_LIST = 12 << 8, CODE_ALT_MAP = 13 << 8, CODE_ALT_ANY = 16 << 8, CODE_ALT_DYNAMIC = 17 << 8, CODE_ALT_STRUCT = 19 << 8,
	CODE_ALT_TUPLE = 23 << 8, CODE_ALT_OBJECT = 24 << 8, CODE_ALT_BOOL = 31 << 8, CODE_ALT_STRING = 32 << 8, CODE_ALT_OPTIONAL = 33 << 8,
};

typedef bool bool_t;
typedef float float32_t;
typedef double float64_t;
struct struct_t {};

template<typename T> T flip_bytes(const T& v) {
	T out; const uint8_t* s = (const uint8_t*)&v; uint8_t* d = (uint8_t*)&out;
	for(size_t i = 0; i < sizeof(T); ++i) { d[i] = s[sizeof(T) - 1 - i]; }
	return out;
}
template<typename T> T to_big_endian(const T& v) { return flip_bytes(v); }
template<typename T> T from_big_endian(const T& v) { return flip_bytes(v); }
template<typename T> T to_little_endian(const T& v) { return v; }
template<typename T> T from_little_endian(const T& v) { return v; }

class CRC64 {
public:
	void update(const char* data, size_t size) { update((const uint8_t*)data, size); }
	void update(const uint8_t* data, size_t size);
	void update(const std::string& str) { update((const uint8_t*)str.data(), str.size()); }
	template<typename T, typename = typename std::enable_if<std::is_arithmetic<T>::value>::type>
	void update(const T& v) { update((const uint8_t*)&v, sizeof(v)); }
	uint64_t get() const { return crc; }
	uint64_t crc = ~uint64_t(0);
};

uint64_t rand64();
uint64_t hash64(const std::string& str);
uint64_t hash64(const void* data, size_t size);
std::vector<uint8_t> secure_random_bytes(size_t n);
void secure_random_bytes(void* data, size_t n);

class Hash64 {
public:
	uint64_t value = 0;
	Hash64() = default;
	Hash64(uint64_t v) : value(v) {}
	Hash64(const std::string& str) : value(hash64(str)) {}
	Hash64& operator=(const char* str) { value = hash64(std::string(str)); return *this; }
	Hash64(const void* data, size_t size) : value(hash64(data, size)) {}
	Hash64(uint64_t a, Hash64 b) { const uint64_t t[2] = {a, b.value}; value = hash64(t, 16); }
	Hash64(Hash64 a, Hash64 b) : Hash64(a.value, b) {}
	operator uint64_t() const { return value; }
	static Hash64 rand() { return Hash64(rand64()); }
	std::string to_string() const { std::ostringstream ss; ss << "0x" << std::hex << value; return ss.str(); }
};

class SHA256 {
public:
	SHA256();
	void update(const uint8_t* data, size_t n);
	void finalize(uint8_t* out);
	std::string finalize_str();
private:
	std::vector<uint8_t> buf;
};

struct Memory {
	std::vector<uint8_t> bytes;
	size_t get_size() const { return bytes.size(); }
	void clear() { bytes.clear(); }
	uint8_t* add_chunk(size_t n) { bytes.resize(bytes.size() + n); return bytes.data() + bytes.size() - n; }
};
class Buffer : public std::vector<uint8_t> {
public:
	Buffer() = default;
	Buffer(const Memory& m) : std::vector<uint8_t>(m.bytes) {}
	Buffer& operator=(const Memory& m) { assign(m.bytes.begin(), m.bytes.end()); return *this; }
	using std::vector<uint8_t>::vector;
	const uint8_t* data(size_t off = 0) const { return std::vector<uint8_t>::data() + off; }
	uint8_t* data(size_t off = 0) { return std::vector<uint8_t>::data() + off; }
	std::string as_string() const { return std::string((const char*)data(), size()); }
	std::vector<uint8_t> as_vector() const { return *this; }
};

// ---- streams ------------------------------------------------------------------------------------------------
class InputStream { public: virtual ~InputStream() {} virtual size_t read(void* buf, size_t len) = 0; virtual int64_t get_input_pos() const { return 0; } };
class OutputStream { public: virtual ~OutputStream() {} virtual void write(const void* buf, size_t len) = 0; virtual int64_t get_output_pos() const { return 0; } virtual void flush() {} };

class PointerInputStream : public InputStream {
public:
	PointerInputStream(const void* data, size_t size) : data((const uint8_t*)data), size(size) {}
	size_t read(void* buf, size_t len) override { const auto n = std::min(len, size - pos); if(n) { ::memcpy(buf, data + pos, n); } pos += n; return n; }
	int64_t get_input_pos() const override { return pos; }
private:
	const uint8_t* data; size_t size; size_t pos = 0;
};
class VectorInputStream : public InputStream {
public:
	VectorInputStream(const std::vector<uint8_t>* v) : v(v) {}
	size_t read(void* buf, size_t len) override { const auto n = std::min(len, v->size() - pos); if(n) { ::memcpy(buf, v->data() + pos, n); } pos += n; return n; }
	int64_t get_input_pos() const override { return pos; }
private:
	const std::vector<uint8_t>* v; size_t pos = 0;
};
class VectorOutputStream : public OutputStream {
public:
	VectorOutputStream(std::vector<uint8_t>* v) : v(v) {}
	void write(const void* buf, size_t len) override { v->insert(v->end(), (const uint8_t*)buf, (const uint8_t*)buf + len); }
	int64_t get_output_pos() const override { return v->size(); }
private:
	std::vector<uint8_t>* v;
};
class MemoryOutputStream : public OutputStream {
public:
	MemoryOutputStream(Memory* m) : m(m) {}
	void write(const void* buf, size_t len) override { ::memcpy(m->add_chunk(len), buf, len); }
	int64_t get_output_pos() const override { return m->get_size(); }
private:
	Memory* m;
};
class FileSectionInputStream : public InputStream {
public:
	FileSectionInputStream(int fd, int64_t offset, int64_t length, size_t /*buffer_size*/ = 0) : fd(fd), offset(offset), length(length) {}
	size_t read(void* buf, size_t len) override;
	int64_t get_input_pos() const override { return pos; }
private:
	int fd; int64_t offset; int64_t length; int64_t pos = 0;
};

class InputBuffer {
public:
	InputBuffer(InputStream* stream) : stream(stream) {}
	// returns contiguous pointer to n bytes, valid until next read
	const char* read(size_t n) {
		if(end - pos < n) { fill(n); }
		const char* p = (const char*)buf.data() + pos; pos += n; total += n; return p;
	}
	void read(void* dst, size_t n) {
		uint8_t* d = (uint8_t*)dst;
		while(n) {
			if(pos == end) { fill(1); }
			const auto k = std::min(n, end - pos);
			::memcpy(d, buf.data() + pos, k); d += k; n -= k; pos += k; total += k;
		}
	}
	int64_t get_input_pos() const { return total; }
	void set_input_pos(int64_t p) { total = p; }
	void reset() { pos = end = 0; }
private:
	void fill(size_t n);
	InputStream* stream;
	std::vector<uint8_t> buf; size_t pos = 0, end = 0; int64_t total = 0;
};

class OutputBuffer {
public:
	OutputBuffer(OutputStream* stream, size_t cap = VNX_BUFFER_SIZE) : stream(stream), buf(cap) {}
	virtual ~OutputBuffer() {}
	char* write(size_t n) {
		if(buf.size() - pos < n) { flush_buffer(); if(buf.size() < n) { buf.resize(n); } }
		char* p = (char*)buf.data() + pos; pos += n; return p;
	}
	void write(const void* src, size_t n) {
		const uint8_t* s = (const uint8_t*)src;
		while(n) {
			if(pos == buf.size()) { flush_buffer(); }
			const auto k = std::min(n, buf.size() - pos);
			::memcpy(buf.data() + pos, s, k); s += k; n -= k; pos += k;
		}
	}
	void flush() { flush_buffer(); if(stream) { stream->flush(); } }
	void flush_buffer() { if(pos) { const auto n = pos; pos = 0; base += n; if(stream) { stream->write(buf.data(), n); } } }
	void reset() { pos = 0; }
	const uint8_t* get_buffer() const { return buf.data(); }
	size_t get_buffer_pos() const { return pos; }
	int64_t get_output_pos() const { return base + int64_t(pos); }
	void set_output_pos(int64_t p) { base = p - int64_t(pos); }
	void set_capacity(size_t cap) { flush_buffer(); buf.resize(std::max<size_t>(cap, 1)); }
protected:
	OutputStream* stream; std::vector<uint8_t> buf; size_t pos = 0; int64_t base = 0;
};

class TypeCode;

class TypeInput : public InputBuffer {
public:
	TypeInput(InputStream* stream) : InputBuffer(stream) {}
	struct recursion_t {
		TypeInput& in;
		recursion_t(TypeInput& in) : in(in) { if(++in.depth > 100) { in.depth--; throw std::runtime_error("vnx: recursion limit"); } }
		~recursion_t() { in.depth--; }
	};
	bool safe_read = true;
private:
	int depth = 0;
};
class TypeOutput : public OutputBuffer {
public:
	TypeOutput(OutputStream* stream, size_t cap = VNX_BUFFER_SIZE) : OutputBuffer(stream, cap) {}
	bool disable_type_codes = false;
	void write_type_code(const TypeCode*) {}
	void reset() { OutputBuffer::reset(); }
};

// ---- types --------------------------------------------------------------------------------------------------
class Value; class Variant; class Object; class Visitor; class TypeCode; class Module;

template<typename T> struct type;
template<typename T> struct is_equivalent { bool operator()(const uint16_t*, const TypeCode*) { return false; } };

struct ostream_ref { std::ostream& out; ostream_ref(std::ostream& o) : out(o) {} operator std::ostream&() const { return out; } };
struct istream_ref { std::istream& in; istream_ref(std::istream& i) : in(i) {} operator std::istream&() const { return in; } };

template<typename T> struct is_vnx_object {
	template<typename C> static std::true_type test(decltype(&C::VNX_TYPE_HASH)); template<typename C> static std::false_type test(...);
	static constexpr bool value = decltype(test<T>(nullptr))::value;
};
template<typename T> constexpr bool is_object() { return is_vnx_object<T>::value; }

struct TypeField {
	bool is_extended = false; uint16_t data_size = 0; std::string name; std::string value; std::vector<uint16_t> code;
	size_t offset = 0; int native_index = -1;
};

class TypeCode {
public:
	std::string name; Hash64 type_hash, code_hash;
	bool is_native = false, is_enum = false, is_class = false, is_method = false, is_return = false, is_async = false, is_const = false;
	bool is_matched = true, is_equivalent = true;
	size_t native_size = 0;
	std::vector<const TypeCode*> parents, depends, methods;
	const TypeCode* super = nullptr; const TypeCode* return_type = nullptr;
	std::vector<TypeField> fields;
	std::vector<const TypeField*> field_map, ext_fields;
	size_t total_field_size = 0;
	std::map<uint32_t, std::string> enum_map;
	Hash64 permission;
	std::function<std::shared_ptr<Value>()> create_value;
	void build();
	TypeCode() = default;
	TypeCode(const TypeCode& o) { *this = o; }
	TypeCode& operator=(const TypeCode& o);
};
const TypeCode* register_type_code(std::shared_ptr<TypeCode> code);
const TypeCode* get_type_code(Hash64 hash);
const TypeCode* get_type_code_by_code_hash(uint64_t hash);
const TypeCode* get_type_code(const std::string& name);
std::vector<const TypeCode*> get_all_type_codes();

inline size_t code_len(const uint16_t* c) {
	switch(c[0]) {
		case CODE_ARRAY: return 2 + code_len(c + 2);
		case CODE_LIST: case CODE_OPTIONAL: return 1 + code_len(c + 1);
		case CODE_MAP: return c[1] + code_len(c + c[1]);
		case CODE_STRUCT: return 2;
		case CODE_TUPLE: if(c[1] == 0) { return 2; } return c[1 + c[1]] + code_len(c + c[1 + c[1]]);
		default: return 1;
	}
}
size_t code_size(const uint16_t* code);		// bytes of a fixed primitive, or 0

// ---- optional -----------------------------------------------------------------------------------------------
template<typename T>
class optional : public std::optional<T> {
public:
	optional() = default;
	optional(std::nullptr_t) {}
	optional(const T& v) : std::optional<T>(v) {}
	optional(T&& v) : std::optional<T>(std::move(v)) {}
	template<typename S, typename = typename std::enable_if<std::is_convertible<S, T>::value && !std::is_same<typename std::decay<S>::type, optional<T>>::value>::type>
	optional(const S& v) : std::optional<T>(T(v)) {}
	optional& operator=(std::nullptr_t) { this->reset(); return *this; }
	template<typename S> optional& operator=(const S& v) { std::optional<T>::operator=(T(v)); return *this; }
	optional(const optional&) = default;
	optional& operator=(const optional&) = default;
	operator bool() const { return this->has_value(); }
	bool operator==(std::nullptr_t) const { return !this->has_value(); }
	bool operator!=(std::nullptr_t) const { return this->has_value(); }
};
template<typename T> inline bool operator==(const optional<T>& a, const optional<T>& b) { return static_cast<const std::optional<T>&>(a) == static_cast<const std::optional<T>&>(b); }
template<typename T> inline bool operator!=(const optional<T>& a, const optional<T>& b) { return !(a == b); }
template<typename T> inline bool operator<(const optional<T>& a, const optional<T>& b) { return a ? (b ? *a < *b : false) : bool(b); }
template<typename T> inline std::ostream& operator<<(std::ostream& out, const optional<T>& v) { if(v) { return out << *v; } return out << "null"; }

// ---- Visitor ------------------------------------------------------------------------------------------------
class Visitor {
public:
	bool enable_binary = false;
	virtual ~Visitor() {}
	virtual void visit_null() {}
	virtual void visit(const bool&) {}
	virtual void visit(const uint8_t&) {}
	virtual void visit(const uint16_t&) {}
	virtual void visit(const uint32_t&) {}
	virtual void visit(const uint64_t&) {}
	virtual void visit(const int8_t&) {}
	virtual void visit(const int16_t&) {}
	virtual void visit(const int32_t&) {}
	virtual void visit(const int64_t&) {}
	virtual void visit(const float32_t&) {}
	virtual void visit(const float64_t&) {}
	virtual void visit(const std::string&) {}
	void visit(const char* s) { visit(std::string(s)); }
	virtual void visit(const uint8_t*, const size_t) {}
	virtual void list_begin(size_t) {}
	virtual void list_element(size_t) {}
	virtual void list_end(size_t) {}
	virtual void map_begin(size_t) {}
	virtual void map_key(size_t) {}
	virtual void map_value(size_t) {}
	virtual void map_end(size_t) {}
	virtual void type_begin(const TypeCode&) {}
	virtual void type_field(const TypeField&, size_t) {}
	virtual void type_end(const TypeCode&) {}
	virtual void enum_value(uint32_t v, const std::string& name) { if(name.empty()) { visit(v); } else { visit(name); } }
};

// ---- primitive read / write ---------------------------------------------------------------------------------
void skip(TypeInput& in, const TypeCode* tc, const uint16_t* code);
void copy(TypeInput& in, TypeOutput& out, const TypeCode* tc, const uint16_t* code);
size_t read_byte_code(TypeInput& in, uint16_t* code);
void write_byte_code(TypeOutput& out, const uint16_t* code);
std::string to_hex_string(const void* data, size_t n, bool big_endian = false, bool lower = false);
template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type> std::string to_hex_string(T v) { std::ostringstream ss; ss << std::hex << std::uppercase << uint64_t(v); return ss.str(); }
std::vector<uint8_t> from_hex_string(const std::string& str);

template<typename T> struct prim_code;
#define SHIM_PRIM(T, C) template<> struct prim_code<T> { static constexpr uint16_t value = C; };
SHIM_PRIM(bool, CODE_BOOL) SHIM_PRIM(uint8_t, CODE_UINT8) SHIM_PRIM(uint16_t, CODE_UINT16) SHIM_PRIM(uint32_t, CODE_UINT32) SHIM_PRIM(uint64_t, CODE_UINT64)
SHIM_PRIM(int8_t, CODE_INT8) SHIM_PRIM(int16_t, CODE_INT16) SHIM_PRIM(int32_t, CODE_INT32) SHIM_PRIM(int64_t, CODE_INT64) SHIM_PRIM(float, CODE_FLOAT) SHIM_PRIM(double, CODE_DOUBLE)
SHIM_PRIM(char, CODE_INT8) SHIM_PRIM(long long, CODE_INT64) SHIM_PRIM(unsigned long long, CODE_UINT64)
#undef SHIM_PRIM

struct num_t { enum { NONE, U, I, F } k = NONE; uint64_t u = 0; int64_t i = 0; double f = 0; };
num_t read_num(TypeInput& in, const TypeCode* tc, const uint16_t* code);
template<typename T> T num_cast(const num_t& n) {
	switch(n.k) {
		case num_t::U: return T(n.u); case num_t::I: return T(n.i);
		case num_t::F:
			if constexpr(std::is_integral<T>::value && !std::is_same<T, bool>::value) {
				if(!(n.f > -9.3e18 && n.f < 1.85e19)) { return T(); }
				return n.f < 0 ? T(int64_t(n.f)) : T(uint64_t(n.f));
			}
			return T(n.f);
		default: return T();
	}
}
template<typename T> void read_prim(TypeInput& in, T& value, const TypeCode* tc, const uint16_t* code) {
	if(!code || code[0] == prim_code<T>::value) {
		::memcpy(&value, in.read(sizeof(T)), sizeof(T));
	} else {
		value = num_cast<T>(read_num(in, tc, code));
	}
}
#define SHIM_P(T) \
	inline void read(TypeInput& in, T& value, const TypeCode* tc = nullptr, const uint16_t* code = nullptr) { read_prim<T>(in, value, tc, code); } \
	inline void write(TypeOutput& out, const T& value, const TypeCode* = nullptr, const uint16_t* = nullptr) { ::memcpy(out.write(sizeof(T)), &value, sizeof(T)); } \
	void read(std::istream& in, T& value); void write(std::ostream& out, const T& value); \
	inline void accept(Visitor& v, const T& value) { v.visit(value); }
SHIM_P(uint8_t) SHIM_P(uint16_t) SHIM_P(uint32_t) SHIM_P(uint64_t) SHIM_P(int8_t) SHIM_P(int16_t) SHIM_P(int32_t) SHIM_P(int64_t) SHIM_P(float) SHIM_P(double)
#undef SHIM_P
void read(TypeInput& in, bool& value, const TypeCode* tc = nullptr, const uint16_t* code = nullptr);
inline void write(TypeOutput& out, const bool& value, const TypeCode* = nullptr, const uint16_t* = nullptr) { *out.write(1) = value ? 1 : 0; }
void read(std::istream& in, bool& value); void write(std::ostream& out, const bool& value);
inline void accept(Visitor& v, const bool& value) { v.visit(value); }

void read(TypeInput& in, std::string& value, const TypeCode* tc = nullptr, const uint16_t* code = nullptr);
void write(TypeOutput& out, const std::string& value, const TypeCode* tc = nullptr, const uint16_t* code = nullptr);
void read(std::istream& in, std::string& value); void write(std::ostream& out, const std::string& value);
inline void write(std::ostream& out, const char* value) { write(out, std::string(value)); }
inline void write(TypeOutput& out, const char* value, const TypeCode* tc = nullptr, const uint16_t* code = nullptr) { write(out, std::string(value), tc, code); }
inline void accept(Visitor& v, const std::string& value) { v.visit(value); }
inline void accept(Visitor& v, std::nullptr_t) { v.visit_null(); }

inline void read(TypeInput& in, Hash64& value, const TypeCode* tc = nullptr, const uint16_t* code = nullptr) { read(in, value.value, tc, code); }
inline void write(TypeOutput& out, const Hash64& value, const TypeCode* = nullptr, const uint16_t* = nullptr) { write(out, value.value); }
inline void read(std::istream& in, Hash64& value) { read(in, value.value); }
inline void write(std::ostream& out, const Hash64& value) { write(out, value.value); }
inline void accept(Visitor& v, const Hash64& value) { v.visit(value.value); }
inline std::ostream& operator<<(std::ostream& out, const Hash64& v) { return out << v.to_string(); }

void read(TypeInput& in, Variant& value, const TypeCode* tc = nullptr, const uint16_t* code = nullptr);
void write(TypeOutput& out, const Variant& value, const TypeCode* tc = nullptr, const uint16_t* code = nullptr);
void read(std::istream& in, Variant& value); void write(std::ostream& out, const Variant& value);
void accept(Visitor& v, const Variant& value);
void read(TypeInput& in, Object& value, const TypeCode* tc = nullptr, const uint16_t* code = nullptr);
void write(TypeOutput& out, const Object& value, const TypeCode* tc = nullptr, const uint16_t* code = nullptr);
void read(std::istream& in, Object& value); void write(std::ostream& out, const Object& value);
void accept(Visitor& v, const Object& value);
void read(TypeInput& in, TypeCode& value, const TypeCode* tc = nullptr, const uint16_t* code = nullptr);
void write(TypeOutput& out, const TypeCode& value, const TypeCode* tc = nullptr, const uint16_t* code = nullptr);
void read(std::istream& in, TypeCode& value); void write(std::ostream& out, const TypeCode& value);
void accept(Visitor& v, const TypeCode& value);
void read(TypeInput& in, Buffer& value, const TypeCode* tc = nullptr, const uint16_t* code = nullptr);
void write(TypeOutput& out, const Buffer& value, const TypeCode* tc = nullptr, const uint16_t* code = nullptr);
void read(std::istream& in, Buffer& value); void write(std::ostream& out, const Buffer& value);
void accept(Visitor& v, const Buffer& value);

// shared_ptr<Value>, non-template cores
std::shared_ptr<Value> read_value_ptr(TypeInput& in, const TypeCode* tc, const uint16_t* code);
void write_value_ptr(TypeOutput& out, const Value* value);
void write_value_ptr(std::ostream& out, const Value* value);
std::shared_ptr<Value> read_value_ptr(std::istream& in);
void accept_value_ptr(Visitor& v, const Value* value);
inline std::shared_ptr<Value> read(TypeInput& in) { return read_value_ptr(in, nullptr, nullptr); }
std::shared_ptr<Value> read_obj_as_value(const Object& obj);

// container declarations (found by templates through type<>)
template<typename T> void read(TypeInput& in, std::vector<T>& value, const TypeCode* tc = nullptr, const uint16_t* code = nullptr);
template<typename T> void write(TypeOutput& out, const std::vector<T>& value, const TypeCode* tc = nullptr, const uint16_t* code = nullptr);

// ---- type<> -------------------------------------------------------------------------------------------------
template<typename T> struct type {		// fallback
	void read(TypeInput& in, T& value, const TypeCode* tc, const uint16_t* code) { if constexpr(std::is_enum<T>::value) { uint32_t tmp = 0; read_prim<uint32_t>(in, tmp, tc, code); value = T(tmp); } else { do_read(in, value, tc, code); } }
	void write(TypeOutput& out, const T& value, const TypeCode* tc, const uint16_t* code) { if constexpr(std::is_enum<T>::value) { const uint32_t tmp = value; ::memcpy(out.write(4), &tmp, 4); } else { do_write(out, value, tc, code); } }
	void read(std::istream& in, T& value) { do_read(in, value); }
	void write(std::ostream& out, const T& value) { if constexpr(std::is_enum<T>::value) { out << uint32_t(value); } else { do_write(out, value); } }
	void accept(Visitor& v, const T& value) { if constexpr(std::is_enum<T>::value) { v.visit(uint32_t(value)); } else { do_accept(v, value); } }
	const TypeCode* get_type_code() { return nullptr; }
	void create_dynamic_code(std::vector<uint16_t>& code) { create_dynamic_code(code, T()); }
	void create_dynamic_code(std::vector<uint16_t>& code, const T& value, bool special = false);
private:
	static void do_read(TypeInput& in, T& value, const TypeCode* tc, const uint16_t* code);
	static void do_write(TypeOutput& out, const T& value, const TypeCode* tc, const uint16_t* code);
	static void do_read(std::istream& in, T& value);
	static void do_write(std::ostream& out, const T& value);
	static void do_accept(Visitor& v, const T& value);
};
namespace shim_adl {
	template<typename T> void rd(TypeInput& in, T& v, const TypeCode* tc, const uint16_t* c) { read(in, v, tc, c); }
	template<typename T> void wr(TypeOutput& out, const T& v, const TypeCode* tc, const uint16_t* c) { write(out, v, tc, c); }
	template<typename T> void rd(std::istream& in, T& v) { read(istream_ref(in), v); }
	template<typename T> void wr(std::ostream& out, const T& v) { write(ostream_ref(out), v); }
	template<typename T> void ac(Visitor& vis, const T& v) { accept(vis, v); }
}
template<typename T> void type<T>::do_read(TypeInput& in, T& v, const TypeCode* tc, const uint16_t* c) { shim_adl::rd(in, v, tc, c); }
template<typename T> void type<T>::do_write(TypeOutput& out, const T& v, const TypeCode* tc, const uint16_t* c) { shim_adl::wr(out, v, tc, c); }
template<typename T> void type<T>::do_read(std::istream& in, T& v) { shim_adl::rd(in, v); }
template<typename T> void type<T>::do_write(std::ostream& out, const T& v) { shim_adl::wr(out, v); }
template<typename T> void type<T>::do_accept(Visitor& vis, const T& v) { shim_adl::ac(vis, v); }

template<typename T, typename E = void> struct dyn_code_of { static void get(std::vector<uint16_t>& code, const T&) { code.push_back(CODE_OBJECT); } };
template<typename T> struct dyn_code_of<T, typename std::enable_if<std::is_arithmetic<T>::value>::type> { static void get(std::vector<uint16_t>& code, const T&) { code.push_back(prim_code<T>::value); } };
template<typename T> struct dyn_code_of<T, typename std::enable_if<std::is_enum<T>::value>::type> { static void get(std::vector<uint16_t>& code, const T&) { code.push_back(CODE_UINT32); } };
template<> struct dyn_code_of<std::string> { static void get(std::vector<uint16_t>& code, const std::string&) { code.push_back(CODE_STRING); } };
template<> struct dyn_code_of<Hash64> { static void get(std::vector<uint16_t>& code, const Hash64&) { code.push_back(CODE_UINT64); } };
template<> struct dyn_code_of<Variant> { static void get(std::vector<uint16_t>& code, const Variant&) { code.push_back(CODE_DYNAMIC); } };
template<> struct dyn_code_of<Object> { static void get(std::vector<uint16_t>& code, const Object&) { code.push_back(CODE_OBJECT); } };
template<> struct dyn_code_of<Buffer> { static void get(std::vector<uint16_t>& code, const Buffer&) { code.push_back(CODE_LIST); code.push_back(CODE_UINT8); } };
template<typename T> struct dyn_code_of<T, typename std::enable_if<sizeof(((T*)0)->bytes) != 0 && !is_vnx_object<T>::value>::type> {
	static void get(std::vector<uint16_t>& code, const T& v) { code.push_back(CODE_ARRAY); code.push_back(v.bytes.size()); code.push_back(CODE_UINT8); } };
template<typename T> void type<T>::create_dynamic_code(std::vector<uint16_t>& code, const T& value, bool) { dyn_code_of<T>::get(code, value); }

#define SHIM_TYPE_HEAD(...) \
	typedef __VA_ARGS__ value_t; \
	const TypeCode* get_type_code() { return nullptr; } \
	void create_dynamic_code(std::vector<uint16_t>& code) { create_dynamic_code(code, value_t()); } \
	void read(std::istream& in, value_t& value);

template<typename A> struct seq_type {		// vector, list, set, array helper
};
template<typename C, typename T> void write_seq_json(std::ostream& out, const C& value) {
	out << "["; bool first = true;
	for(const auto& e : value) { if(!first) { out << ", "; } first = false; type<T>().write(out, e); }
	out << "]";
}
template<typename C, typename T> void accept_seq(Visitor& v, const C& value) {
	v.list_begin(value.size()); size_t i = 0;
	for(const auto& e : value) { v.list_element(i++); type<T>().accept(v, e); }
	v.list_end(value.size());
}
// Calls func(in, elem_code) for each element if code denotes a sequence, returns element count through reserve callback.
template<typename F> bool read_seq(TypeInput& in, const TypeCode* tc, const uint16_t* code, const F& func);

template<typename T> struct type<std::vector<T>> {
	SHIM_TYPE_HEAD(std::vector<T>)
	void create_dynamic_code(std::vector<uint16_t>& code, const value_t&, bool = false) { code.push_back(CODE_LIST); type<T>().create_dynamic_code(code); }
	void read(TypeInput& in, value_t& value, const TypeCode* tc, const uint16_t* code);
	void write(TypeOutput& out, const value_t& value, const TypeCode* tc, const uint16_t* code) {
		std::vector<uint16_t> tmp; if(!code) { create_dynamic_code(tmp, value); code = tmp.data(); }
		vnx::write(out, uint32_t(value.size()));
		if constexpr(std::is_same<T, uint8_t>::value) { if(code[1] == CODE_UINT8) { out.OutputBuffer::write(value.data(), value.size()); return; } }
		for(const auto& e : value) { const T& ref = e; type<T>().write(out, ref, tc, code + 1); }
	}
	void write(std::ostream& out, const value_t& value) { write_seq_json<value_t, T>(out, value); }
	void accept(Visitor& v, const value_t& value) { if constexpr(std::is_same<T, uint8_t>::value) { v.visit(value.data(), value.size()); } else { accept_seq<value_t, T>(v, value); } }
};
template<typename T> struct type<std::list<T>> {
	SHIM_TYPE_HEAD(std::list<T>)
	void create_dynamic_code(std::vector<uint16_t>& code, const value_t&, bool = false) { code.push_back(CODE_LIST); type<T>().create_dynamic_code(code); }
	void read(TypeInput& in, value_t& value, const TypeCode* tc, const uint16_t* code) { std::vector<T> tmp; type<std::vector<T>>().read(in, tmp, tc, code); value.assign(tmp.begin(), tmp.end()); }
	void write(TypeOutput& out, const value_t& value, const TypeCode* tc, const uint16_t* code) { type<std::vector<T>>().write(out, std::vector<T>(value.begin(), value.end()), tc, code); }
	void write(std::ostream& out, const value_t& value) { write_seq_json<value_t, T>(out, value); }
	void accept(Visitor& v, const value_t& value) { accept_seq<value_t, T>(v, value); }
};
template<typename T> struct type<std::set<T>> {
	SHIM_TYPE_HEAD(std::set<T>)
	void create_dynamic_code(std::vector<uint16_t>& code, const value_t&, bool = false) { code.push_back(CODE_LIST); type<T>().create_dynamic_code(code); }
	void read(TypeInput& in, value_t& value, const TypeCode* tc, const uint16_t* code) { std::vector<T> tmp; type<std::vector<T>>().read(in, tmp, tc, code); value = std::set<T>(tmp.begin(), tmp.end()); }
	void write(TypeOutput& out, const value_t& value, const TypeCode* tc, const uint16_t* code) { type<std::vector<T>>().write(out, std::vector<T>(value.begin(), value.end()), tc, code); }
	void write(std::ostream& out, const value_t& value) { write_seq_json<value_t, T>(out, value); }
	void accept(Visitor& v, const value_t& value) { accept_seq<value_t, T>(v, value); }
};
template<typename T, size_t N> struct type<std::array<T, N>> {
	SHIM_TYPE_HEAD(std::array<T, N>)
	void create_dynamic_code(std::vector<uint16_t>& code, const value_t&, bool = false) { code.push_back(CODE_ARRAY); code.push_back(N); type<T>().create_dynamic_code(code); }
	void read(TypeInput& in, value_t& value, const TypeCode* tc, const uint16_t* code) {
		if constexpr(std::is_same<T, uint8_t>::value) { if(!code || (code[0] == CODE_ARRAY && code[1] == N && code[2] == CODE_UINT8)) { in.InputBuffer::read(value.data(), N); return; } }
		std::vector<uint16_t> own; if(!code) { create_dynamic_code(own, value); code = own.data(); }
		std::vector<T> tmp; type<std::vector<T>>().read(in, tmp, tc, code); value = value_t();
		for(size_t i = 0; i < N && i < tmp.size(); ++i) { value[i] = tmp[i]; }
	}
	void write(TypeOutput& out, const value_t& value, const TypeCode* tc, const uint16_t* code) {
		if constexpr(std::is_same<T, uint8_t>::value) { out.OutputBuffer::write(value.data(), N); return; }
		std::vector<uint16_t> tmp; if(!code) { create_dynamic_code(tmp, value); code = tmp.data(); }
		for(const auto& e : value) { type<T>().write(out, e, tc, code + 2); }
	}
	void write(std::ostream& out, const value_t& value) { write_seq_json<value_t, T>(out, value); }
	void accept(Visitor& v, const value_t& value) { if constexpr(std::is_same<T, uint8_t>::value) { v.visit(value.data(), N); } else { accept_seq<value_t, T>(v, value); } }
};
template<typename A, typename B> struct type<std::pair<A, B>> {
	SHIM_TYPE_HEAD(std::pair<A, B>)
	void create_dynamic_code(std::vector<uint16_t>& code, const value_t&, bool = false) {
		std::vector<uint16_t> a, b; type<typename std::remove_const<A>::type>().create_dynamic_code(a); type<B>().create_dynamic_code(b);
		code.push_back(CODE_TUPLE); code.push_back(2); code.push_back(4); code.push_back(4 + a.size());
		code.insert(code.end(), a.begin(), a.end()); code.insert(code.end(), b.begin(), b.end());
	}
	void read(TypeInput& in, value_t& value, const TypeCode* tc, const uint16_t* code);
	void write(TypeOutput& out, const value_t& value, const TypeCode* tc, const uint16_t* code) {
		std::vector<uint16_t> tmp; if(!code) { create_dynamic_code(tmp, value); code = tmp.data(); }
		type<A>().write(out, value.first, tc, code + code[2]); type<B>().write(out, value.second, tc, code + code[3]);
	}
	void write(std::ostream& out, const value_t& value) { out << "["; type<A>().write(out, value.first); out << ", "; type<B>().write(out, value.second); out << "]"; }
	void accept(Visitor& v, const value_t& value) { v.list_begin(2); v.list_element(0); type<A>().accept(v, value.first); v.list_element(1); type<B>().accept(v, value.second); v.list_end(2); }
};
template<typename... Ts> struct type<std::tuple<Ts...>> {
	SHIM_TYPE_HEAD(std::tuple<Ts...>)
	void create_dynamic_code(std::vector<uint16_t>& code, const value_t&, bool = false) {
		std::vector<std::vector<uint16_t>> parts; (parts.push_back(code_of<Ts>()), ...);
		code.push_back(CODE_TUPLE); code.push_back(parts.size()); size_t off = 2 + parts.size();
		for(const auto& p : parts) { code.push_back(off); off += p.size(); }
		for(const auto& p : parts) { code.insert(code.end(), p.begin(), p.end()); }
	}
	void read(TypeInput& in, value_t& value, const TypeCode* tc, const uint16_t* code) {
		std::vector<uint16_t> tmp; if(!code) { create_dynamic_code(tmp, value); code = tmp.data(); }
		if(code[0] != CODE_TUPLE || code[1] != sizeof...(Ts)) { skip(in, tc, code); return; }
		size_t i = 0; std::apply([&](auto&... e) { (type<typename std::decay<decltype(e)>::type>().read(in, e, tc, code + code[2 + i++]), ...); }, value);
	}
	void write(TypeOutput& out, const value_t& value, const TypeCode* tc, const uint16_t* code) {
		std::vector<uint16_t> tmp; if(!code) { create_dynamic_code(tmp, value); code = tmp.data(); }
		size_t i = 0; std::apply([&](const auto&... e) { (type<typename std::decay<decltype(e)>::type>().write(out, e, tc, code + code[2 + i++]), ...); }, value);
	}
	void write(std::ostream& out, const value_t& value) { out << "["; size_t i = 0; std::apply([&](const auto&... e) { ((out << (i++ ? ", " : ""), type<typename std::decay<decltype(e)>::type>().write(out, e)), ...); }, value); out << "]"; }
	void accept(Visitor& v, const value_t& value) { v.list_begin(sizeof...(Ts)); size_t i = 0; std::apply([&](const auto&... e) { ((v.list_element(i++), type<typename std::decay<decltype(e)>::type>().accept(v, e)), ...); }, value); v.list_end(sizeof...(Ts)); }
private:
	template<typename T> static std::vector<uint16_t> code_of() { std::vector<uint16_t> c; type<T>().create_dynamic_code(c); return c; }
};
template<typename M, typename K, typename V> struct map_type {
	typedef M value_t;
	const TypeCode* get_type_code() { return nullptr; }
	void create_dynamic_code(std::vector<uint16_t>& code) { create_dynamic_code(code, M()); }
	void create_dynamic_code(std::vector<uint16_t>& code, const M&, bool = false) {
		std::vector<uint16_t> a, b; type<K>().create_dynamic_code(a); type<V>().create_dynamic_code(b);
		code.push_back(CODE_MAP); code.push_back(2 + a.size());
		code.insert(code.end(), a.begin(), a.end()); code.insert(code.end(), b.begin(), b.end());
	}
	void read(std::istream& in, M& value);
	void read(TypeInput& in, M& value, const TypeCode* tc, const uint16_t* code);
	void write(TypeOutput& out, const M& value, const TypeCode* tc, const uint16_t* code) {
		std::vector<uint16_t> tmp; if(!code) { create_dynamic_code(tmp, value); code = tmp.data(); }
		vnx::write(out, uint32_t(value.size()));
		for(const auto& e : value) { type<K>().write(out, e.first, tc, code + 2); type<V>().write(out, e.second, tc, code + code[1]); }
	}
	void write(std::ostream& out, const M& value) {
		constexpr bool obj = std::is_same<K, std::string>::value;
		out << (obj ? "{" : "["); bool first = true;
		for(const auto& e : value) {
			if(!first) { out << ", "; } first = false;
			if(obj) { type<K>().write(out, e.first); out << ": "; type<V>().write(out, e.second); }
			else { out << "["; type<K>().write(out, e.first); out << ", "; type<V>().write(out, e.second); out << "]"; }
		}
		out << (obj ? "}" : "]");
	}
	void accept(Visitor& v, const M& value) {
		v.map_begin(value.size()); size_t i = 0;
		for(const auto& e : value) { v.map_key(i); type<K>().accept(v, e.first); v.map_value(i); type<V>().accept(v, e.second); i++; }
		v.map_end(value.size());
	}
};
template<typename K, typename V> struct type<std::map<K, V>> : map_type<std::map<K, V>, K, V> {};
template<typename K, typename V> struct type<std::unordered_map<K, V>> : map_type<std::unordered_map<K, V>, K, V> {};
template<typename K, typename V> struct type<std::multimap<K, V>> : map_type<std::multimap<K, V>, K, V> {};
template<typename T> struct type<optional<T>> {
	SHIM_TYPE_HEAD(optional<T>)
	void create_dynamic_code(std::vector<uint16_t>& code, const value_t&, bool = false) { code.push_back(CODE_OPTIONAL); type<T>().create_dynamic_code(code); }
	void read(TypeInput& in, value_t& value, const TypeCode* tc, const uint16_t* code);
	void write(TypeOutput& out, const value_t& value, const TypeCode* tc, const uint16_t* code) {
		std::vector<uint16_t> tmp; if(!code) { create_dynamic_code(tmp, value); code = tmp.data(); }
		*out.OutputBuffer::write(1) = value ? 1 : 0;
		if(value) { type<T>().write(out, *value, tc, code + 1); }
	}
	void write(std::ostream& out, const value_t& value) { if(value) { type<T>().write(out, *value); } else { out << "null"; } }
	void accept(Visitor& v, const value_t& value) { if(value) { type<T>().accept(v, *value); } else { v.visit_null(); } }
};
template<typename T> struct type<std::shared_ptr<T>> {
	SHIM_TYPE_HEAD(std::shared_ptr<T>)
	void create_dynamic_code(std::vector<uint16_t>& code, const value_t&, bool = false) { code.push_back(CODE_ANY); }
	void read(TypeInput& in, value_t& value, const TypeCode* tc, const uint16_t* code) { value = std::dynamic_pointer_cast<T>(read_value_ptr(in, tc, code)); }
	void write(TypeOutput& out, const value_t& value, const TypeCode*, const uint16_t*) { write_value_ptr(out, value.get()); }
	void write(std::ostream& out, const value_t& value) { write_value_ptr(out, value.get()); }
	void accept(Visitor& v, const value_t& value) { accept_value_ptr(v, value.get()); }
};

// generic forwarding overloads so that vnx::read / write / accept accept every container
#define SHIM_FWD(TPL, ...) \
	TPL void read(TypeInput& in, __VA_ARGS__& value, const TypeCode* tc = nullptr, const uint16_t* code = nullptr) { type<__VA_ARGS__>().read(in, value, tc, code); } \
	TPL void write(TypeOutput& out, const __VA_ARGS__& value, const TypeCode* tc = nullptr, const uint16_t* code = nullptr) { type<__VA_ARGS__>().write(out, value, tc, code); } \
	TPL void read(std::istream& in, __VA_ARGS__& value) { type<__VA_ARGS__>().read(in, value); } \
	TPL void write(std::ostream& out, const __VA_ARGS__& value) { type<__VA_ARGS__>().write(out, value); } \
	TPL void accept(Visitor& v, const __VA_ARGS__& value) { type<__VA_ARGS__>().accept(v, value); }
#define SHIM_T1 template<typename T>
#define SHIM_T2 template<typename A, typename B>
#define SHIM_TN template<typename T, size_t N>
#define SHIM_TV template<typename... Ts>
template<typename T> void read(TypeInput& in, std::vector<T>& value, const TypeCode* tc, const uint16_t* code) { type<std::vector<T>>().read(in, value, tc, code); }
template<typename T> void write(TypeOutput& out, const std::vector<T>& value, const TypeCode* tc, const uint16_t* code) { type<std::vector<T>>().write(out, value, tc, code); }
template<typename T> void read(std::istream& in, std::vector<T>& value) { type<std::vector<T>>().read(in, value); }
template<typename T> void write(std::ostream& out, const std::vector<T>& value) { type<std::vector<T>>().write(out, value); }
template<typename T> void accept(Visitor& v, const std::vector<T>& value) { type<std::vector<T>>().accept(v, value); }
SHIM_FWD(SHIM_T1, std::list<T>) SHIM_FWD(SHIM_T1, std::set<T>) SHIM_FWD(SHIM_TN, std::array<T, N>)
SHIM_FWD(SHIM_T2, std::pair<A, B>) SHIM_FWD(SHIM_TV, std::tuple<Ts...>) SHIM_FWD(SHIM_T2, std::map<A, B>) SHIM_FWD(SHIM_T2, std::unordered_map<A, B>) SHIM_FWD(SHIM_T2, std::multimap<A, B>)
SHIM_FWD(SHIM_T1, vnx::optional<T>) SHIM_FWD(SHIM_T1, std::shared_ptr<T>)
inline void write(TypeOutput& out, std::nullptr_t, const TypeCode* = nullptr, const uint16_t* = nullptr) { write_value_ptr(out, nullptr); }
inline void write(std::ostream& out, std::nullptr_t) { out << "null"; }

// raw value access for struct fields
template<typename T> void write_value(void* buf, const T& value) { ::memcpy(buf, &value, sizeof(T)); }
template<typename T> void read_value(const void* buf, T& value) { ::memcpy(&value, buf, sizeof(T)); }
template<typename T> void read_value(const void* buf, T& value, const uint16_t* code) {
	if constexpr(std::is_enum<T>::value) { uint32_t tmp; read_value(buf, tmp, code); value = T(tmp); }
	else if constexpr(!std::is_arithmetic<T>::value) { ::memcpy(&value, buf, sizeof(T)); }
	else if(code && code[0] != prim_code<T>::value) { PointerInputStream s(buf, code_size(code)); TypeInput in(&s); read_prim<T>(in, value, nullptr, code); }
	else { ::memcpy(&value, buf, sizeof(T)); }
}

// ---- Variant / Object ---------------------------------------------------------------------------------------
class Variant {
public:
	std::vector<uint8_t> data;		// [u16 n][u16 code ...][payload]; empty = null
	Variant() = default;
	Variant(const Variant&) = default;
	Variant(Variant&&) = default;
	Variant& operator=(const Variant&) = default;
	Variant& operator=(Variant&&) = default;
	Variant(std::nullptr_t) {}
	Variant(const char* str) { assign(std::string(str)); }
	template<typename T, typename = typename std::enable_if<!std::is_same<T, Variant>::value>::type>
	explicit Variant(const T& v) { assign(v); }
	Variant& operator=(std::nullptr_t) { data.clear(); return *this; }
	Variant& operator=(const char* str) { assign(std::string(str)); return *this; }
	template<typename T> Variant& operator=(const T& v) { assign(v); return *this; }
	template<typename T> void assign(const T& v) {
		std::vector<uint16_t> code; type<T>().create_dynamic_code(code, v, true);
		data.clear(); VectorOutputStream s(&data); TypeOutput out(&s);
		vnx::write(out, uint16_t(code.size())); out.OutputBuffer::write(code.data(), code.size() * 2);
		type<T>().write(out, v, nullptr, code.data()); out.flush();
	}
	template<typename T> static void reset_value(T& value, std::false_type) { value = T(); }
	template<typename T> static void reset_value(T&, std::true_type) {}
	template<typename T> void to(T& value) const {
		if(data.empty()) { reset_value(value, std::is_abstract<T>()); return; }
		VectorInputStream s(&data); TypeInput in(&s);
		std::vector<uint16_t> code(VNX_MAX_BYTE_CODE_SIZE); read_byte_code(in, code.data());
		if(code[0] == CODE_NULL) { reset_value(value, std::is_abstract<T>()); return; }
		type<T>().read(in, value, nullptr, code.data());
	}
	template<typename T> T to() const { T v = T(); to(v); return v; }
	const uint16_t* code0() const;		// first code word
	uint16_t first_code() const { if(data.size() < 4) { return CODE_NULL; } uint16_t c; ::memcpy(&c, data.data() + 2, 2); return c; }
	bool empty() const { return data.empty(); }
	size_t size() const { return data.size(); }
	void clear() { data.clear(); }
	bool is_null() const { return first_code() == CODE_NULL; }
	bool is_bool() const { return first_code() == CODE_BOOL; }
	bool is_ulong() const { const auto c = first_code(); return c >= CODE_UINT8 && c <= CODE_UINT64; }
	bool is_long() const { const auto c = first_code(); return c >= CODE_INT8 && c <= CODE_INT64; }
	bool is_integral() const { return is_ulong() || is_long(); }
	bool is_double() const { const auto c = first_code(); return c == CODE_FLOAT || c == CODE_DOUBLE; }
	bool is_string() const { return first_code() == CODE_STRING; }
	bool is_array() const { const auto c = first_code(); return c == CODE_LIST || c == CODE_ARRAY; }
	bool is_map() const { return first_code() == CODE_MAP; }
	bool is_object() const { return first_code() == CODE_OBJECT; }
	bool is_value() const { return first_code() == CODE_ANY; }
	Object to_object() const;
	std::vector<Variant> to_array() const { return to<std::vector<Variant>>(); }
	std::string to_string() const { std::ostringstream ss; vnx::write(ss, *this); return ss.str(); }
	std::string to_string_value() const { return is_string() ? to<std::string>() : to_string(); }
	std::string to_string_value_full() const { return to_string_value(); }
	Variant operator[](const std::string& name) const;
	bool operator==(const Variant& o) const { return data == o.data; }
	bool operator!=(const Variant& o) const { return data != o.data; }
	bool operator<(const Variant& o) const { return data < o.data; }
	operator bool() const;
};
inline std::ostream& operator<<(std::ostream& out, const Variant& v) { vnx::write(out, v); return out; }

class Object {
public:
	std::map<std::string, Variant> field;
	Object() = default;
	Object(const std::map<std::string, Variant>& f) : field(f) {}
	Variant& operator[](const std::string& name) { return field[name]; }
	const Variant& operator[](const std::string& name) const { static const Variant null; auto it = field.find(name); return it != field.end() ? it->second : null; }
	const std::map<std::string, Variant>& get_fields() const { return field; }
	static const TypeCode* static_get_type_code() { return nullptr; }
	template<typename V> void accept_generic(V& visitor) const {
		visitor.template type_begin<Object>(field.size());
		size_t i = 0;
		for(const auto& e : field) { visitor.type_field(e.first, i++); visitor.accept(e.second); }
		visitor.template type_end<Object>(field.size());
	}
	auto begin() const { return field.begin(); } auto end() const { return field.end(); }
	bool has_field(const std::string& name) const { return field.count(name); }
	void erase(const std::string& name) { field.erase(name); }
	bool empty() const { return field.empty(); }
	void clear() { field.clear(); }
	std::string get_type_name() const { return (*this)["__type"].to_string_value(); }
	std::string to_string() const { std::ostringstream ss; vnx::write(ss, *this); return ss.str(); }
	Object to_object() const { return *this; }
	bool operator==(const Object& o) const { return field == o.field; }
	bool operator!=(const Object& o) const { return field != o.field; }
	bool operator<(const Object& o) const { return field < o.field; }
};
inline std::ostream& operator<<(std::ostream& out, const Object& v) { vnx::write(out, v); return out; }

class Value {
public:
	virtual ~Value() {}
	static const Hash64 VNX_TYPE_HASH; static const Hash64 VNX_CODE_HASH;
	virtual Hash64 get_type_hash() const { return Hash64(uint64_t(0)); }
	virtual std::string get_type_name() const { return "vnx.Value"; }
	virtual const TypeCode* get_type_code() const { return nullptr; }
	virtual std::shared_ptr<Value> clone() const { return nullptr; }
	virtual void read(TypeInput&, const TypeCode*, const uint16_t*) {}
	virtual void write(TypeOutput&, const TypeCode*, const uint16_t*) const {}
	virtual void read(std::istream&) {}
	virtual void write(std::ostream&) const {}
	virtual void accept(Visitor&) const {}
	virtual Object to_object() const { return Object(); }
	virtual void from_object(const Object&) {}
	virtual Variant get_field(const std::string&) const { return Variant(); }
	virtual void set_field(const std::string&, const Variant&) {}
	virtual bool is_void() const { const auto* tc = get_type_code(); return tc ? tc->fields.empty() : true; }
	virtual Variant get_field_by_index(const uint32_t& i) const { const auto* tc = get_type_code(); return tc && i < tc->fields.size() ? get_field(tc->fields[i].name) : Variant(); }
	std::shared_ptr<Value> shim_call(std::shared_ptr<const Value> method) { return vnx_call_switch(method); }
protected:
	virtual std::shared_ptr<Value> vnx_call_switch(std::shared_ptr<const Value>) { return nullptr; }
};
template<typename T> class Struct : public Value {
public:
	T value;
	Struct() = default; Struct(const T& v) : value(v) {}
	Hash64 get_type_hash() const override { return T::VNX_TYPE_HASH; }
	std::string get_type_name() const override { return value.get_type_name(); }
	const TypeCode* get_type_code() const override { return value.get_type_code(); }
	std::shared_ptr<Value> clone() const override { return std::make_shared<Struct<T>>(*this); }
	void read(TypeInput& in, const TypeCode* tc, const uint16_t* c) override { value.read(in, tc, c); }
	void write(TypeOutput& out, const TypeCode* tc, const uint16_t* c) const override { value.write(out, tc, c); }
	void read(std::istream& in) override { value.read(in); }
	void write(std::ostream& out) const override { value.write(out); }
	void accept(Visitor& v) const override { value.accept(v); }
	Object to_object() const override { return value.to_object(); }
	void from_object(const Object& o) override { value.from_object(o); }
	Variant get_field(const std::string& n) const override { return value.get_field(n); }
	void set_field(const std::string& n, const Variant& v) override { value.set_field(n, v); }
};
template<typename T> std::shared_ptr<T> clone(const T& v) { return std::make_shared<T>(v); }
template<typename T> std::shared_ptr<typename std::remove_const<T>::type> clone(std::shared_ptr<T> v) {
	typedef typename std::remove_const<T>::type U;
	if(!v) { return nullptr; } return std::dynamic_pointer_cast<U>(v->clone());
}

template<typename T> void write_class_header(TypeOutput& out) { vnx::write(out, uint16_t(0x0F)); vnx::write(out, uint64_t(T::VNX_CODE_HASH)); }
template<typename T> void read_dynamic(TypeInput& in, T& value) {
	Variant tmp; const uint16_t c = CODE_DYNAMIC; vnx::read(in, tmp, nullptr, &c); tmp.to(value);
}

template<typename F> bool read_seq(TypeInput& in, const TypeCode* tc, const uint16_t* code, const F& func) {
	switch(code[0]) {
		case CODE_LIST: { uint32_t n = 0; vnx::read(in, n); for(uint32_t i = 0; i < n; ++i) { func(in, tc, code + 1); } return true; }
		case CODE_ARRAY: { for(uint32_t i = 0; i < code[1]; ++i) { func(in, tc, code + 2); } return true; }
		case CODE_TUPLE: { for(uint32_t i = 0; i < code[1]; ++i) { func(in, tc, code + code[2 + i]); } return true; }
	}
	return false;
}
template<typename T> void type<std::vector<T>>::read(TypeInput& in, std::vector<T>& value, const TypeCode* tc, const uint16_t* code) {
	std::vector<uint16_t> own; if(!code) { create_dynamic_code(own, value); code = own.data(); }
	value.clear();
	if(code[0] == CODE_DYNAMIC) { Variant tmp; vnx::read(in, tmp, tc, code); tmp.to(value); return; }
	if(code[0] == CODE_OPTIONAL) { if(*in.InputBuffer::read(1)) { read(in, value, tc, code + 1); } return; }
	if constexpr(std::is_same<T, uint8_t>::value) {
		if(code[0] == CODE_LIST && code[1] == CODE_UINT8) {
			uint32_t n = 0; vnx::read(in, n);
			while(n) { const auto k = std::min<uint32_t>(n, 65536); const auto off = value.size(); value.resize(off + k); in.InputBuffer::read(value.data() + off, k); n -= k; }
			return;
		}
	}
	if(!read_seq(in, tc, code, [&](TypeInput& in, const TypeCode* tc, const uint16_t* c) { T e = T(); type<T>().read(in, e, tc, c); value.push_back(std::move(e)); })) {
		skip(in, tc, code);
	}
}
template<typename A, typename B> void type<std::pair<A, B>>::read(TypeInput& in, std::pair<A, B>& value, const TypeCode* tc, const uint16_t* code) {
	std::vector<uint16_t> own; if(!code) { create_dynamic_code(own, value); code = own.data(); }
	if(code[0] == CODE_DYNAMIC) { Variant tmp; vnx::read(in, tmp, tc, code); tmp.to(value); return; }
	size_t i = 0;
	if(!read_seq(in, tc, code, [&](TypeInput& in, const TypeCode* tc, const uint16_t* c) {
		if(i == 0) { type<typename std::remove_const<A>::type>().read(in, const_cast<typename std::remove_const<A>::type&>(value.first), tc, c); } else if(i == 1) { type<B>().read(in, value.second, tc, c); } else { skip(in, tc, c); }
		i++;
	})) { skip(in, tc, code); }
}
template<typename M, typename K, typename V> void map_type<M, K, V>::read(TypeInput& in, M& value, const TypeCode* tc, const uint16_t* code) {
	std::vector<uint16_t> own; if(!code) { create_dynamic_code(own, value); code = own.data(); }
	value.clear();
	if(code[0] == CODE_DYNAMIC) { Variant tmp; vnx::read(in, tmp, tc, code); tmp.to(value); return; }
	if(code[0] == CODE_MAP) {
		uint32_t n = 0; vnx::read(in, n);
		for(uint32_t i = 0; i < n; ++i) { K k = K(); V v = V(); type<K>().read(in, k, tc, code + 2); type<V>().read(in, v, tc, code + code[1]); value.emplace(std::move(k), std::move(v)); }
		return;
	}
	if(code[0] == CODE_OBJECT) {
		Object obj; vnx::read(in, obj, tc, code);
		for(const auto& e : obj.field) { value.emplace(Variant(e.first).to<K>(), e.second.template to<V>()); }
		return;
	}
	if(!read_seq(in, tc, code, [&](TypeInput& in, const TypeCode* tc, const uint16_t* c) {
		std::pair<K, V> e; type<std::pair<K, V>>().read(in, e, tc, c); value.emplace(std::move(e.first), std::move(e.second));
	})) { skip(in, tc, code); }
}
template<typename T> void type<optional<T>>::read(TypeInput& in, optional<T>& value, const TypeCode* tc, const uint16_t* code) {
	std::vector<uint16_t> own; if(!code) { create_dynamic_code(own, value); code = own.data(); }
	value = nullptr;
	switch(code[0]) {
		case CODE_NULL: break;
		case CODE_OPTIONAL: if(*in.InputBuffer::read(1)) { T tmp = T(); type<T>().read(in, tmp, tc, code + 1); value = std::move(tmp); } break;
		case CODE_DYNAMIC: { Variant tmp; vnx::read(in, tmp, tc, code); if(!tmp.is_null()) { tmp.to(value); } break; }
		default: { T tmp = T(); type<T>().read(in, tmp, tc, code); value = std::move(tmp); }
	}
}
#define SHIM_JSON_READ(TPL, CLS, ...) TPL void CLS::read(std::istream& in, __VA_ARGS__& value) { Variant tmp; vnx::read(in, tmp); tmp.to(value); }
SHIM_JSON_READ(SHIM_T1, type<std::vector<T>>, std::vector<T>) SHIM_JSON_READ(SHIM_T1, type<std::list<T>>, std::list<T>) SHIM_JSON_READ(SHIM_T1, type<std::set<T>>, std::set<T>)
SHIM_JSON_READ(SHIM_T1, type<optional<T>>, optional<T>)
template<typename T, size_t N> void type<std::array<T, N>>::read(std::istream& in, std::array<T, N>& value) { Variant tmp; vnx::read(in, tmp); tmp.to(value); }
template<typename A, typename B> void type<std::pair<A, B>>::read(std::istream& in, std::pair<A, B>& value) { Variant tmp; vnx::read(in, tmp); tmp.to(value); }
template<typename... Ts> void type<std::tuple<Ts...>>::read(std::istream& in, std::tuple<Ts...>& value) { Variant tmp; vnx::read(in, tmp); tmp.to(value); }
template<typename T> void type<std::shared_ptr<T>>::read(std::istream& in, std::shared_ptr<T>& value) { value = std::dynamic_pointer_cast<T>(read_value_ptr(in)); }
template<typename M, typename K, typename V> void map_type<M, K, V>::read(std::istream& in, M& value) { Variant tmp; vnx::read(in, tmp); tmp.to(value); }

// ---- strings ------------------------------------------------------------------------------------------------
class JSON_Value { public: Variant value; virtual ~JSON_Value() {} Object to_object() const { return value.to_object(); } std::string to_string_value() const { return value.to_string_value(); } Variant operator*() const { return value; } };
class JSON_Array : public JSON_Value { public: std::vector<std::shared_ptr<JSON_Value>> get_values() const; };
std::shared_ptr<JSON_Value> read_json(std::istream& in, bool until_end = false);
Variant read(std::istream& in);
template<typename T> std::string to_string(const T& v) { std::ostringstream ss; type<T>().write(ss, v); return ss.str(); }
inline std::string to_string(const char* v) { return to_string(std::string(v)); }
template<typename T> std::string to_string_value(const T& v) { return Variant(v).to_string_value(); }
template<typename T> std::string to_string_value_full(const T& v) { return Variant(v).to_string_value(); }
inline std::string to_string_value(const std::string& v) { return v; }
inline std::string to_string_value(const Variant& v) { return v.to_string_value(); }
inline std::string to_string_value_full(const std::string& v) { return v; }
inline std::string to_string_value_full(const Variant& v) { return v.to_string_value(); }
template<typename T> void from_string(const std::string& str, T& v) { std::istringstream ss(str); type<T>().read(ss, v); }
void from_string_value_var(const std::string& str, Variant& v);
template<typename T> void from_string_value(const std::string& str, T& v) { Variant tmp; from_string_value_var(str, tmp); if constexpr(std::is_same<T, Variant>::value) { v = tmp; } else if constexpr(std::is_same<T, std::string>::value) { v = str; } else { tmp.to(v); } }
template<typename T> T from_string(const std::string& str) { T v = T(); from_string(str, v); return v; }
template<typename T> T from_string_value(const std::string& str) { T v = T(); from_string_value(str, v); return v; }
template<typename T> std::string to_pretty_string(const T& v) { return vnx::to_string(v); }
std::vector<std::string> string_split(const std::string& str, char c, bool clean = false);
std::string string_subs(std::string str, const std::string& find, const std::string& subs);

class DefaultPrinter : public Visitor {
public:
	std::ostream& out;
	DefaultPrinter(std::ostream& out) : out(out) {}
	void visit_null() override { out << "null"; }
	void visit(const bool& v) override { out << (v ? "true" : "false"); }
	void visit(const uint8_t& v) override { out << unsigned(v); }
	void visit(const uint16_t& v) override { out << v; }
	void visit(const uint32_t& v) override { out << v; }
	void visit(const uint64_t& v) override { out << v; }
	void visit(const int8_t& v) override { out << int(v); }
	void visit(const int16_t& v) override { out << v; }
	void visit(const int32_t& v) override { out << v; }
	void visit(const int64_t& v) override { out << v; }
	void visit(const float32_t& v) override { vnx::write(out, v); }
	void visit(const float64_t& v) override { vnx::write(out, v); }
	void visit(const std::string& v) override { vnx::write(out, v); }
	void visit(const uint8_t* d, const size_t n) override { vnx::write(out, to_hex_string(d, n)); }
	void list_begin(size_t) override { out << "["; }
	void list_element(size_t i) override { if(i) { out << ", "; } }
	void list_end(size_t) override { out << "]"; }
	void map_begin(size_t) override { out << "["; }
	void map_key(size_t i) override { out << (i ? ", [" : "["); }
	void map_value(size_t) override { out << ", "; }
	void map_end(size_t n) override { (void)n; out << "]"; }
	void type_begin(const TypeCode& tc) override { out << "{\"__type\": \"" << tc.name << "\""; }
	void type_field(const TypeField& f, size_t) override { out << ", \"" << f.name << "\": "; }
	void type_end(const TypeCode&) override { out << "}"; }
};
class PrettyPrinter : public DefaultPrinter { public: PrettyPrinter(std::ostream& out) : DefaultPrinter(out) {} };

template<typename V, typename T> void accept_generic(V& visitor, const T& value) { visitor.accept(value); }

template<typename T> void write_generic(TypeOutput& out, const T& v) { vnx::write(out, Variant(v)); }
template<typename T> void read_generic(TypeInput& in, T& v) { Variant tmp; vnx::read(in, tmp); tmp.to(v); }

inline Object Variant::to_object() const {
	if(first_code() == CODE_ANY) { auto p = to<std::shared_ptr<Value>>(); return p ? p->to_object() : Object(); }
	return to<Object>();
}
inline Variant Variant::operator[](const std::string& name) const { return to_object()[name]; }
inline Variant::operator bool() const {
	if(is_null()) { return false; }
	if(is_string()) { return !to<std::string>().empty(); }
	return to<bool>();
}

} // vnx
#endif
