#include <vnx/all.h>

#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <cerrno>
#include <chrono>

namespace vnx {

// ---- hashing ------------------------------------------------------------------------------------------------
struct crc_table_t {
	uint64_t t[256];
	crc_table_t() {
		for(uint64_t i = 0; i < 256; ++i) {
			uint64_t c = i;
			for(int k = 0; k < 8; ++k) { c = (c & 1) ? (c >> 1) ^ 0xC96C5795D7870F42ull : c >> 1; }
			t[i] = c;
		}
	}
};
static crc_table_t* crc_table() { static crc_table_t t; return &t; }

void CRC64::update(const uint8_t* data, size_t size) {
	const auto* t = crc_table()->t;
	for(size_t i = 0; i < size; ++i) { crc = t[(crc ^ data[i]) & 0xFF] ^ (crc >> 8); }
}
uint64_t hash64(const void* data, size_t size) { CRC64 c; c.update((const uint8_t*)data, size); return c.get(); }
uint64_t hash64(const std::string& str) { return hash64(str.data(), str.size()); }

static std::mt19937_64& rand_engine() { static std::mt19937_64 e(0x1234567); return e; }
uint64_t rand64() { return rand_engine()(); }
std::vector<uint8_t> secure_random_bytes(size_t n) { std::vector<uint8_t> out(n); for(auto& b : out) { b = rand64(); } return out; }
void secure_random_bytes(void* data, size_t n) { for(size_t i = 0; i < n; ++i) { ((uint8_t*)data)[i] = rand64(); } }

const Hash64 Value::VNX_TYPE_HASH(uint64_t(0)); const Hash64 Value::VNX_CODE_HASH(uint64_t(0));

// plain SHA-256 (FIPS 180-4)
static void sha256_block(uint32_t* h, const uint8_t* p) {
	static const uint32_t k[64] = {
		0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
		0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
		0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
		0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
	auto rr = [](uint32_t x, int n) { return (x >> n) | (x << (32 - n)); };
	uint32_t w[64];
	for(int i = 0; i < 16; ++i) { w[i] = uint32_t(p[4*i]) << 24 | uint32_t(p[4*i+1]) << 16 | uint32_t(p[4*i+2]) << 8 | p[4*i+3]; }
	for(int i = 16; i < 64; ++i) { w[i] = w[i-16] + (rr(w[i-15],7) ^ rr(w[i-15],18) ^ (w[i-15] >> 3)) + w[i-7] + (rr(w[i-2],17) ^ rr(w[i-2],19) ^ (w[i-2] >> 10)); }
	uint32_t a=h[0],b=h[1],c=h[2],d=h[3],e=h[4],f=h[5],g=h[6],hh=h[7];
	for(int i = 0; i < 64; ++i) {
		const uint32_t t1 = hh + (rr(e,6) ^ rr(e,11) ^ rr(e,25)) + ((e & f) ^ (~e & g)) + k[i] + w[i];
		const uint32_t t2 = (rr(a,2) ^ rr(a,13) ^ rr(a,22)) + ((a & b) ^ (a & c) ^ (b & c));
		hh=g; g=f; f=e; e=d+t1; d=c; c=b; b=a; a=t1+t2;
	}
	h[0]+=a;h[1]+=b;h[2]+=c;h[3]+=d;h[4]+=e;h[5]+=f;h[6]+=g;h[7]+=hh;
}
SHA256::SHA256() {}
void SHA256::update(const uint8_t* data, size_t n) { buf.insert(buf.end(), data, data + n); }
void SHA256::finalize(uint8_t* out) {
	uint32_t h[8] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
	const uint64_t bits = uint64_t(buf.size()) * 8;
	auto b = buf; b.push_back(0x80); while(b.size() % 64 != 56) { b.push_back(0); }
	for(int i = 7; i >= 0; --i) { b.push_back(bits >> (8 * i)); }
	for(size_t i = 0; i < b.size(); i += 64) { sha256_block(h, b.data() + i); }
	for(int i = 0; i < 8; ++i) { for(int j = 0; j < 4; ++j) { out[4*i+j] = h[i] >> (24 - 8*j); } }
}
std::string SHA256::finalize_str() { uint8_t h[32]; finalize(h); return to_hex_string(h, 32); }

std::string to_hex_string(const void* data, size_t n, bool big_endian, bool lower) {
	const char* digits = lower ? "0123456789abcdef" : "0123456789ABCDEF";
	std::string out; const auto* p = (const uint8_t*)data;
	for(size_t i = 0; i < n; ++i) { const auto b = p[big_endian ? n - 1 - i : i]; out += digits[b >> 4]; out += digits[b & 15]; }
	return out;
}
std::vector<uint8_t> from_hex_string(const std::string& str_) {
	auto str = str_;
	if(str.size() >= 2 && str[0] == '0' && (str[1] == 'x' || str[1] == 'X')) { str = str.substr(2); }
	if(str.size() % 2) { str = "0" + str; }
	auto dec = [](char c) -> int { if(c >= '0' && c <= '9') { return c - '0'; } if(c >= 'a' && c <= 'f') { return c - 'a' + 10; } if(c >= 'A' && c <= 'F') { return c - 'A' + 10; } throw std::runtime_error("invalid hex character"); };
	std::vector<uint8_t> out;
	for(size_t i = 0; i < str.size(); i += 2) { out.push_back(dec(str[i]) * 16 + dec(str[i + 1])); }
	return out;
}

// ---- streams ------------------------------------------------------------------------------------------------
size_t FileSectionInputStream::read(void* buf, size_t len) {
	if(length >= 0) { len = std::min<int64_t>(len, length - pos); }
	if(!len) { return 0; }
	const auto n = ::pread(fd, buf, len, offset + pos);
	if(n < 0) { throw std::runtime_error("pread() failed"); }
	pos += n; return n;
}
void InputBuffer::fill(size_t n) {
	if(pos) { ::memmove(buf.data(), buf.data() + pos, end - pos); end -= pos; pos = 0; }
	if(n > (size_t(1) << 30)) { throw std::underflow_error("vnx: read too large"); }
	while(end < n) {
		const size_t want = std::max<size_t>(n - end, 256);
		if(buf.size() < end + want) { buf.resize(end + want); }
		const auto k = stream ? stream->read(buf.data() + end, want) : 0;
		if(!k) { throw std::underflow_error("EOF"); }
		end += k;
	}
}

// ---- files --------------------------------------------------------------------------------------------------
namespace shim {
io_state_t io; bool verbose = ::getenv("SHIM_LOG") != nullptr; int64_t wall_time_us = 0;
bool io_state_t::check_crash() { if(crashed) { return true; } return false; }
size_t io_state_t::before_write(const std::string& path, size_t n) {
	if(crashed) { return 0; }
	const auto i = op_count++;
	if(trace) { trace->push_back("write " + std::to_string(n) + " " + path); }
	if(crash_at >= 0 && i >= crash_at) { crashed = true; return n * torn / 1000; }
	return n;
}
void io_state_t::before_op(const char* kind, const std::string& path) {
	if(crashed) { return; }
	const auto i = op_count++;
	if(trace) { trace->push_back(std::string(kind) + " " + path); }
	if(crash_at >= 0 && i >= crash_at) { crashed = true; throw crash_t(); }
}
}
int64_t get_wall_time_micros() {
	if(shim::wall_time_us) { return shim::wall_time_us; }
	return std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::system_clock::now().time_since_epoch()).count();
}

void File::open(const std::string& mode) {
	if(fd >= 0) { close(); }
	int flags = 0;
	if(mode == "rb" || mode == "r") { flags = O_RDONLY; }
	else if(mode == "wb" || mode == "w") { flags = O_RDWR | O_CREAT | O_TRUNC; }
	else if(mode == "ab" || mode == "a") { flags = O_RDWR | O_CREAT | O_APPEND; }
	else if(mode == "rb+" || mode == "r+b" || mode == "r+") { flags = O_RDWR; }
	else { throw std::logic_error("shim: file mode " + mode); }
	if(flags != O_RDONLY) {
		if(shim::io.crashed) { throw shim::crash_t(); }
		if(flags & (O_TRUNC | O_CREAT)) {
			struct stat st;
			if((flags & O_TRUNC) || ::stat(path.c_str(), &st)) { shim::io.before_op("create", path); }
		}
	}
	fd = ::open(path.c_str(), flags | O_CLOEXEC, 0644);
	if(fd < 0) { throw std::runtime_error("open('" + path + "') failed with: " + std::string(::strerror(errno))); }
	in.InputBuffer::reset(); out.reset();
	int64_t pos = 0;
	if(flags & O_APPEND) { pos = ::lseek(fd, 0, SEEK_END); }
	in.set_input_pos(pos); out.set_output_pos(pos);
}
void File::close() {
	if(fd >= 0) {
		const int tmp = fd;
		try { if(!shim::io.crashed) { out.OutputBuffer::flush_buffer(); } } catch(...) { out.reset(); in.InputBuffer::reset(); fd = -1; ::close(tmp); throw; }
		out.reset(); in.InputBuffer::reset(); fd = -1; ::close(tmp);
	}
}
bool File::exists() const { struct stat st; return ::stat(path.c_str(), &st) == 0; }
void File::remove() {
	if(fd >= 0) { out.reset(); in.InputBuffer::reset(); ::close(fd); fd = -1; }
	if(shim::io.crashed) { throw shim::crash_t(); }
	shim::io.before_op("remove", path);
	if(::unlink(path.c_str())) { throw std::runtime_error("remove('" + path + "') failed"); }
}
void File::rename(const std::string& new_path) {
	if(fd >= 0) { close(); }
	if(shim::io.crashed) { throw shim::crash_t(); }
	shim::io.before_op("rename", path);
	if(::rename(path.c_str(), new_path.c_str())) { throw std::runtime_error("rename('" + path + "') failed"); }
	path = new_path;
}
void File::flush() { out.OutputBuffer::flush_buffer(); }
void File::seek_to(int64_t pos) {
	out.OutputBuffer::flush_buffer();
	in.InputBuffer::reset();
	if(::lseek(fd, pos, SEEK_SET) < 0) { throw std::runtime_error("seek failed"); }
	in.set_input_pos(pos); out.set_output_pos(pos);
}
void File::seek_end() { out.OutputBuffer::flush_buffer(); const auto pos = ::lseek(fd, 0, SEEK_END); seek_to(pos); }
int64_t File::file_size() const { struct stat st; if(::stat(path.c_str(), &st)) { throw std::runtime_error("stat failed"); } return st.st_size; }
int64_t File::last_write_time() const { struct stat st; if(::stat(path.c_str(), &st)) { throw std::runtime_error("stat failed"); } return st.st_mtime; }
size_t File::read(void* buf, size_t len) { const auto n = ::read(fd, buf, len); if(n < 0) { throw std::runtime_error("read() failed"); } return n; }
void File::write(const void* buf, size_t len) {
	if(shim::io.crashed) { throw shim::crash_t(); }
	const size_t k = shim::io.before_write(path, len);
	size_t done = 0;
	while(done < k) { const auto n = ::write(fd, (const char*)buf + done, k - done); if(n <= 0) { throw std::runtime_error("write() failed"); } done += n; }
	if(shim::io.crashed) { throw shim::crash_t(); }
}

void Directory::create() {
	if(path.empty()) { return; }
	std::string cur; std::istringstream ss(path); std::string part;
	if(path[0] == '/') { cur = "/"; }
	while(std::getline(ss, part, '/')) { if(part.empty()) { continue; } cur += part + "/"; ::mkdir(cur.c_str(), 0755); }
}
bool Directory::exists() const { struct stat st; return ::stat(path.c_str(), &st) == 0 && S_ISDIR(st.st_mode); }
void Directory::remove() { ::rmdir(path.c_str()); }
static std::vector<std::string> list_dir(const std::string& path, bool dirs) {
	std::vector<std::string> out;
	DIR* d = ::opendir(path.c_str()); if(!d) { throw std::runtime_error("opendir failed: " + path); }
	while(auto* e = ::readdir(d)) {
		const std::string name = e->d_name; if(name == "." || name == "..") { continue; }
		struct stat st; const auto full = path + (path.back() == '/' ? "" : "/") + name;
		if(::stat(full.c_str(), &st)) { continue; }
		if(bool(S_ISDIR(st.st_mode)) == dirs) { out.push_back(full); }
	}
	::closedir(d); std::sort(out.begin(), out.end()); return out;
}
std::vector<std::shared_ptr<File>> Directory::files() const { std::vector<std::shared_ptr<File>> out; for(const auto& p : list_dir(path, false)) { out.push_back(std::make_shared<File>(p)); } return out; }
std::vector<std::shared_ptr<Directory>> Directory::directories() const { std::vector<std::shared_ptr<Directory>> out; for(const auto& p : list_dir(path, true)) { out.push_back(std::make_shared<Directory>(p)); } return out; }
std::vector<std::shared_ptr<File>> Directory::all_files() const { auto out = files(); for(auto d : directories()) { auto t = d->all_files(); out.insert(out.end(), t.begin(), t.end()); } return out; }

// ---- type codes ---------------------------------------------------------------------------------------------
size_t code_size(const uint16_t* code) {
	switch(code[0]) {
		case CODE_UINT8: case CODE_INT8: case CODE_BOOL: return 1;
		case CODE_UINT16: case CODE_INT16: return 2;
		case CODE_UINT32: case CODE_INT32: case CODE_FLOAT: return 4;
		case CODE_UINT64: case CODE_INT64: case CODE_DOUBLE: return 8;
	}
	return 0;
}
void TypeCode::build() {
	field_map.clear(); ext_fields.clear(); total_field_size = 0;
	int index = 0;
	for(auto& f : fields) {
		f.native_index = index++;
		if(f.is_extended) { ext_fields.push_back(&f); field_map.push_back(nullptr); }
		else {
			f.offset = total_field_size;
			const size_t n = f.data_size ? f.data_size : code_size(f.code.data());
			total_field_size += n; field_map.push_back(&f);
		}
	}
	super = parents.empty() ? nullptr : parents[0];
}
TypeCode& TypeCode::operator=(const TypeCode& o) {
	if(this == &o) { return *this; }
	name = o.name; type_hash = o.type_hash; code_hash = o.code_hash;
	is_native = o.is_native; is_enum = o.is_enum; is_class = o.is_class; is_method = o.is_method; is_return = o.is_return; is_async = o.is_async; is_const = o.is_const;
	is_matched = o.is_matched; is_equivalent = o.is_equivalent; native_size = o.native_size; parents = o.parents; depends = o.depends; methods = o.methods;
	return_type = o.return_type; fields = o.fields; enum_map = o.enum_map; permission = o.permission; create_value = o.create_value;
	build();
	return *this;
}
static std::map<uint64_t, std::shared_ptr<TypeCode>>& type_registry() { static auto* r = new std::map<uint64_t, std::shared_ptr<TypeCode>>(); return *r; }
const TypeCode* register_type_code(std::shared_ptr<TypeCode> code) {
	auto& entry = type_registry()[code->type_hash];
	if(!entry) { entry = code; }
	return entry.get();
}
const TypeCode* get_type_code(Hash64 hash) { auto& r = type_registry(); auto it = r.find(hash); return it != r.end() ? it->second.get() : nullptr; }
const TypeCode* get_type_code_by_code_hash(uint64_t hash) {
	static std::unordered_map<uint64_t, const TypeCode*> map; static size_t size = 0;
	auto& r = type_registry();
	if(size != r.size()) { map.clear(); for(const auto& e : r) { if(e.second->code_hash) { map[e.second->code_hash] = e.second.get(); } } size = r.size(); }
	auto it = map.find(hash); return it != map.end() ? it->second : nullptr;
}
const TypeCode* get_type_code(const std::string& name) { for(const auto& e : type_registry()) { if(e.second->name == name) { return e.second.get(); } } return nullptr; }
std::vector<const TypeCode*> get_all_type_codes() { std::vector<const TypeCode*> out; for(const auto& e : type_registry()) { out.push_back(e.second.get()); } return out; }
static std::shared_ptr<Value> create_value(const TypeCode* tc) { return tc && tc->create_value ? tc->create_value() : nullptr; }

static bool valid_code(const uint16_t* c, size_t n, size_t& pos, int depth = 0) {
	if(depth > 50 || pos >= n) { return false; }
	const size_t start = pos;
	switch(c[pos++]) {
		case CODE_ARRAY: if(pos >= n) { return false; } pos++; return valid_code(c, n, pos, depth + 1);
		case CODE_LIST: case CODE_OPTIONAL: return valid_code(c, n, pos, depth + 1);
		case CODE_MAP: { if(pos >= n) { return false; } const auto off = c[pos++]; if(!valid_code(c, n, pos, depth + 1) || start + off != pos) { return false; } return valid_code(c, n, pos, depth + 1); }
		case CODE_TUPLE: {
			if(pos >= n) { return false; } const auto k = c[pos++]; const auto offs = pos; pos += k; if(pos > n) { return false; }
			for(size_t i = 0; i < k; ++i) { if(start + c[offs + i] != pos || !valid_code(c, n, pos, depth + 1)) { return false; } }
			return true;
		}
		case CODE_NULL: case CODE_UINT8: case CODE_UINT16: case CODE_UINT32: case CODE_UINT64: case CODE_INT8: case CODE_INT16: case CODE_INT32: case CODE_INT64:
		case CODE_FLOAT: case CODE_DOUBLE: case CODE_ANY: case CODE_DYNAMIC: case CODE_OBJECT: case CODE_BOOL: case CODE_STRING: return true;
	}
	return false;
}
size_t read_byte_code(TypeInput& in, uint16_t* code) {
	uint16_t n = 0; read(in, n);
	if(n == 0) { code[0] = CODE_NULL; return 0; }
	if(n > VNX_MAX_BYTE_CODE_SIZE) { throw std::runtime_error("vnx: invalid code size"); }
	in.InputBuffer::read(code, size_t(n) * 2);
	size_t pos = 0;
	if(!valid_code(code, n, pos) || pos != n) { throw std::runtime_error("vnx: invalid type code"); }
	return n;
}
void write_byte_code(TypeOutput& out, const uint16_t* code) {
	const auto n = code_len(code); write(out, uint16_t(n)); out.OutputBuffer::write(code, n * 2);
}
static void copy_impl(TypeInput& in, TypeOutput* out, const TypeCode* tc, const uint16_t* code);
static void copy_n(TypeInput& in, TypeOutput* out, size_t n) {
	while(n) { const auto k = std::min<size_t>(n, 65536); const char* p = in.InputBuffer::read(k); if(out) { out->OutputBuffer::write(p, k); } n -= k; }
}
static uint32_t copy_u32(TypeInput& in, TypeOutput* out) { uint32_t n = 0; read(in, n); if(out) { write(*out, n); } return n; }
static void copy_impl(TypeInput& in, TypeOutput* out, const TypeCode* tc, const uint16_t* code) {
	if(!code) { throw std::logic_error("vnx: copy without code"); }
	TypeInput::recursion_t guard(in);
	switch(code[0]) {
		case CODE_NULL: break;
		case CODE_ARRAY: { const size_t s = code_size(code + 2); if(s) { copy_n(in, out, s * code[1]); } else { for(size_t i = 0; i < code[1]; ++i) { copy_impl(in, out, tc, code + 2); } } break; }
		case CODE_LIST: { const auto n = copy_u32(in, out); const size_t s = code_size(code + 1); if(s) { copy_n(in, out, s * n); } else { for(size_t i = 0; i < n; ++i) { copy_impl(in, out, tc, code + 1); } } break; }
		case CODE_STRING: copy_n(in, out, copy_u32(in, out)); break;
		case CODE_MAP: { const auto n = copy_u32(in, out); for(size_t i = 0; i < n; ++i) { copy_impl(in, out, tc, code + 2); copy_impl(in, out, tc, code + code[1]); } break; }
		case CODE_TUPLE: for(size_t i = 0; i < code[1]; ++i) { copy_impl(in, out, tc, code + code[2 + i]); } break;
		case CODE_OPTIONAL: { const char f = *in.InputBuffer::read(1); if(out) { *out->OutputBuffer::write(1) = f; } if(f) { copy_impl(in, out, tc, code + 1); } break; }
		case CODE_OBJECT: { const auto n = copy_u32(in, out); const uint16_t s = CODE_STRING, d = CODE_DYNAMIC; for(size_t i = 0; i < n; ++i) { copy_impl(in, out, tc, &s); copy_impl(in, out, tc, &d); } break; }
		case CODE_DYNAMIC: {
			std::vector<uint16_t> c(VNX_MAX_BYTE_CODE_SIZE); const auto n = read_byte_code(in, c.data());
			if(out) { write(*out, uint16_t(n)); out->OutputBuffer::write(c.data(), n * 2); }
			if(n) { copy_impl(in, out, tc, c.data()); }
			break;
		}
		case CODE_ANY: {
			auto v = read_value_ptr(in, tc, code); if(out) { write_value_ptr(*out, v.get()); }
			break;
		}
		case CODE_STRUCT: {
			if(!tc || code[1] >= tc->depends.size() || !tc->depends[code[1]]) { throw std::runtime_error("vnx: unknown struct"); }
			const auto* t = tc->depends[code[1]];
			copy_n(in, out, t->total_field_size);
			for(const auto* f : t->ext_fields) { copy_impl(in, out, t, f->code.data()); }
			break;
		}
		default: { const auto s = code_size(code); if(!s) { throw std::runtime_error("vnx: unknown code"); } copy_n(in, out, s); }
	}
}
void skip(TypeInput& in, const TypeCode* tc, const uint16_t* code) { copy_impl(in, nullptr, tc, code); }
void copy(TypeInput& in, TypeOutput& out, const TypeCode* tc, const uint16_t* code) { copy_impl(in, &out, tc, code); }

num_t read_num(TypeInput& in, const TypeCode* tc, const uint16_t* code) {
	num_t n;
#define RD(T) { T t = 0; ::memcpy(&t, in.InputBuffer::read(sizeof(T)), sizeof(T)); n.u = uint64_t(t); n.i = int64_t(t); n.f = double(t); }
#define RDF(T) { T t = 0; ::memcpy(&t, in.InputBuffer::read(sizeof(T)), sizeof(T)); n.f = double(t); }
	switch(code[0]) {
		case CODE_UINT8: RD(uint8_t) n.k = num_t::U; break;
		case CODE_UINT16: RD(uint16_t) n.k = num_t::U; break;
		case CODE_UINT32: RD(uint32_t) n.k = num_t::U; break;
		case CODE_UINT64: RD(uint64_t) n.k = num_t::U; break;
		case CODE_BOOL: { n.u = *in.InputBuffer::read(1) != 0; n.i = n.u; n.f = n.u; n.k = num_t::U; break; }
		case CODE_INT8: RD(int8_t) n.k = num_t::I; break;
		case CODE_INT16: RD(int16_t) n.k = num_t::I; break;
		case CODE_INT32: RD(int32_t) n.k = num_t::I; break;
		case CODE_INT64: RD(int64_t) n.k = num_t::I; break;
		case CODE_FLOAT: RDF(float) n.k = num_t::F; break;
		case CODE_DOUBLE: RDF(double) n.k = num_t::F; break;
		case CODE_STRING: {
			std::string s; read(in, s, tc, code);
			if(s == "true") { n.k = num_t::U; n.u = 1; } else if(s == "false") { n.k = num_t::U; }
			else if(!s.empty() && (s[0] == '-' || s[0] == '+')) { n.k = num_t::I; n.i = ::strtoll(s.c_str(), nullptr, 10); }
			else if(s.find('.') != std::string::npos || (s.find('e') != std::string::npos && s.substr(0, 2) != "0x")) { n.k = num_t::F; n.f = ::strtod(s.c_str(), nullptr); }
			else { n.k = num_t::U; n.u = s.substr(0, 2) == "0x" ? ::strtoull(s.c_str() + 2, nullptr, 16) : ::strtoull(s.c_str(), nullptr, 10); }
			break;
		}
		case CODE_OPTIONAL: if(*in.InputBuffer::read(1)) { return read_num(in, tc, code + 1); } break;
		case CODE_DYNAMIC: { std::vector<uint16_t> c(VNX_MAX_BYTE_CODE_SIZE); read_byte_code(in, c.data()); return read_num(in, tc, c.data()); }
		default: skip(in, tc, code);
	}
	return n;
}
void read(TypeInput& in, bool& value, const TypeCode* tc, const uint16_t* code) {
	if(!code || code[0] == CODE_BOOL) { value = *in.InputBuffer::read(1) != 0; return; }
	const auto n = read_num(in, tc, code);
	value = n.k == num_t::F ? n.f != 0 : n.k == num_t::I ? n.i != 0 : n.u != 0;
}
void read(TypeInput& in, std::string& value, const TypeCode* tc, const uint16_t* code) {
	static const uint16_t own = CODE_STRING; if(!code) { code = &own; }
	switch(code[0]) {
		case CODE_STRING: {
			uint32_t n = 0; read(in, n); value.clear();
			while(n) { const auto k = std::min<uint32_t>(n, 65536); const auto off = value.size(); value.resize(off + k); in.InputBuffer::read(&value[off], k); n -= k; }
			break;
		}
		case CODE_LIST: if(code[1] == CODE_UINT8 || code[1] == CODE_INT8) { const uint16_t s = CODE_STRING; read(in, value, tc, &s); } else { value.clear(); skip(in, tc, code); } break;
		case CODE_OPTIONAL: if(*in.InputBuffer::read(1)) { read(in, value, tc, code + 1); } else { value.clear(); } break;
		case CODE_DYNAMIC: { Variant v; read(in, v, tc, code); value = v.to_string_value(); if(v.is_null()) { value.clear(); } break; }
		case CODE_NULL: value.clear(); break;
		default: {
			if(code_size(code)) {
				const auto n = read_num(in, tc, code);
				if(code[0] == CODE_BOOL) { value = n.u ? "true" : "false"; } else if(n.k == num_t::U) { value = std::to_string(n.u); } else if(n.k == num_t::I) { value = std::to_string(n.i); } else { std::ostringstream ss; write(ss, n.f); value = ss.str(); }
			} else { value.clear(); skip(in, tc, code); }
		}
	}
}
void write(TypeOutput& out, const std::string& value, const TypeCode*, const uint16_t*) { write(out, uint32_t(value.size())); out.OutputBuffer::write(value.data(), value.size()); }

void read(TypeInput& in, Variant& value, const TypeCode* tc, const uint16_t* code) {
	std::vector<uint16_t> own;
	value.data.clear();
	if(!code || code[0] == CODE_DYNAMIC) {
		own.resize(VNX_MAX_BYTE_CODE_SIZE); const auto n = read_byte_code(in, own.data()); code = own.data();
		if(!n) { return; }
	}
	VectorOutputStream s(&value.data); TypeOutput out(&s);
	if(code[0] == CODE_STRUCT) { throw std::runtime_error("vnx: struct in variant"); }
	write_byte_code(out, code); copy(in, out, tc, code); out.flush();
}
void write(TypeOutput& out, const Variant& value, const TypeCode*, const uint16_t*) {
	if(value.data.empty()) { write(out, uint16_t(0)); } else { out.OutputBuffer::write(value.data.data(), value.data.size()); }
}
void read(TypeInput& in, Object& value, const TypeCode* tc, const uint16_t* code) {
	value.field.clear();
	if(code) { switch(code[0]) {
		case CODE_OBJECT: break;
		case CODE_DYNAMIC: { Variant v; read(in, v, tc, code); if(v.is_object()) { value = v.to_object(); } return; }
		case CODE_OPTIONAL: if(*in.InputBuffer::read(1)) { read(in, value, tc, code + 1); } return;
		case CODE_ANY: { auto p = read_value_ptr(in, tc, code); if(p) { value = p->to_object(); } return; }
		case CODE_MAP: {
			uint32_t n = 0; read(in, n);
			for(uint32_t i = 0; i < n; ++i) { Variant k, v; type<Variant>().read(in, k, tc, code + 2); type<Variant>().read(in, v, tc, code + code[1]); value.field[k.to_string_value()] = v; }
			return;
		}
		default: skip(in, tc, code); return;
	} }
	TypeInput::recursion_t guard(in);
	uint32_t n = 0; read(in, n);
	for(uint32_t i = 0; i < n; ++i) { std::string key; read(in, key); const uint16_t d = CODE_DYNAMIC; Variant v; read(in, v, tc, &d); value.field[key] = v; }
}
void write(TypeOutput& out, const Object& value, const TypeCode*, const uint16_t*) {
	write(out, uint32_t(value.field.size()));
	for(const auto& e : value.field) { write(out, e.first); write(out, e.second); }
}
void read(TypeInput& in, Buffer& value, const TypeCode* tc, const uint16_t* code) { type<std::vector<uint8_t>>().read(in, value, tc, code); }
void write(TypeOutput& out, const Buffer& value, const TypeCode*, const uint16_t*) { write(out, uint32_t(value.size())); out.OutputBuffer::write(value.data(), value.size()); }
void read(std::istream& in, Buffer& value) { Variant v; read(in, v); if(v.is_string()) { const auto s = v.to<std::string>(); value.assign(s.begin(), s.end()); } else { std::vector<uint8_t> tmp; v.to(tmp); value.assign(tmp.begin(), tmp.end()); } }
void write(std::ostream& out, const Buffer& value) { write(out, std::vector<uint8_t>(value.begin(), value.end())); }
void accept(Visitor& v, const Buffer& value) { v.visit(value.data(), value.size()); }
void read(TypeInput& in, TypeCode& value, const TypeCode*, const uint16_t*) { std::string n; read(in, n); if(auto* tc = get_type_code(n)) { value = *tc; } }
void write(TypeOutput& out, const TypeCode& value, const TypeCode*, const uint16_t*) { write(out, value.name); }
void read(std::istream& in, TypeCode& value) { std::string n; read(in, n); }
void write(std::ostream& out, const TypeCode& value) { write(out, value.name); }
void accept(Visitor& v, const TypeCode& value) { v.visit(value.name); }

// ---- polymorphic values -------------------------------------------------------------------------------------
std::shared_ptr<Value> read_obj_as_value(const Object& obj) {
	const auto name = obj["__type"].to_string_value();
	auto v = create_value(get_type_code(name)); if(v) { v->from_object(obj); }
	return v;
}
std::shared_ptr<Value> read_value_ptr(TypeInput& in, const TypeCode* tc, const uint16_t* code) {
	static const uint16_t any = CODE_ANY; if(!code) { code = &any; }
	TypeInput::recursion_t guard(in);
	switch(code[0]) {
		case CODE_ANY: {
			// wire format of the real library: 1 = null, 0x0F + code hash = object, 0x0E = embedded type description (skipped)
			uint16_t tag = 0; read(in, tag);
			if(tag == 1) { return nullptr; }
			uint64_t hash = 0; const TypeCode* t = nullptr;
			if(tag == 0x0E) {
				uint8_t w[10] = {};
				do { ::memmove(w, w + 1, 9); w[9] = *in.InputBuffer::read(1); ::memcpy(&hash, w + 2, 8); }
				while(!(w[0] == 0x0F && w[1] == 0 && (t = get_type_code_by_code_hash(hash))));
			} else if(tag == 0x0F) {
				read(in, hash); t = get_type_code_by_code_hash(hash);
			} else {
				throw std::runtime_error("vnx: invalid object tag " + std::to_string(tag));
			}
			auto v = create_value(t);
			if(!v) { throw std::runtime_error("vnx: unknown type " + std::to_string(hash)); }
			v->read(in, t, nullptr);
			return v;
		}
		case CODE_OBJECT: { Object o; read(in, o, tc, code); return read_obj_as_value(o); }
		case CODE_DYNAMIC: { Variant v; read(in, v, tc, code); if(v.is_object()) { return read_obj_as_value(v.to_object()); } if(v.is_value()) { return v.to<std::shared_ptr<Value>>(); } return nullptr; }
		case CODE_OPTIONAL: if(*in.InputBuffer::read(1)) { return read_value_ptr(in, tc, code + 1); } return nullptr;
	}
	skip(in, tc, code); return nullptr;
}
void write_value_ptr(TypeOutput& out, const Value* value) {
	if(!value) { write(out, uint16_t(1)); return; }
	static const uint16_t any = CODE_ANY;
	value->write(out, nullptr, &any);
}
void write_value_ptr(std::ostream& out, const Value* value) { if(value) { value->write(out); } else { out << "null"; } }
std::shared_ptr<Value> read_value_ptr(std::istream& in) { Variant v; read(in, v); if(v.is_object()) { return read_obj_as_value(v.to_object()); } return nullptr; }
void accept_value_ptr(Visitor& v, const Value* value) { if(value) { value->accept(v); } else { v.visit_null(); } }

// ---- visiting -----------------------------------------------------------------------------------------------
static void accept_code(Visitor& v, TypeInput& in, const uint16_t* code) {
	switch(code[0]) {
#define AC(C, T) case C: { T t = T(); read(in, t, nullptr, code); v.visit(t); break; }
		AC(CODE_BOOL, bool) AC(CODE_UINT8, uint8_t) AC(CODE_UINT16, uint16_t) AC(CODE_UINT32, uint32_t) AC(CODE_UINT64, uint64_t)
		AC(CODE_INT8, int8_t) AC(CODE_INT16, int16_t) AC(CODE_INT32, int32_t) AC(CODE_INT64, int64_t) AC(CODE_FLOAT, float) AC(CODE_DOUBLE, double) AC(CODE_STRING, std::string)
		case CODE_NULL: v.visit_null(); break;
		case CODE_ARRAY: case CODE_LIST: {
			uint32_t n = code[1]; const uint16_t* e = code + 2;
			if(code[0] == CODE_LIST) { read(in, n); e = code + 1; }
			if(e[0] == CODE_UINT8) { std::vector<uint8_t> b; for(uint32_t i = 0; i < n; ++i) { b.push_back(*in.InputBuffer::read(1)); } v.visit(b.data(), b.size()); break; }
			v.list_begin(n); for(uint32_t i = 0; i < n; ++i) { v.list_element(i); accept_code(v, in, e); } v.list_end(n); break;
		}
		case CODE_TUPLE: v.list_begin(code[1]); for(uint32_t i = 0; i < code[1]; ++i) { v.list_element(i); accept_code(v, in, code + code[2 + i]); } v.list_end(code[1]); break;
		case CODE_MAP: { uint32_t n = 0; read(in, n); v.map_begin(n); for(uint32_t i = 0; i < n; ++i) { v.map_key(i); accept_code(v, in, code + 2); v.map_value(i); accept_code(v, in, code + code[1]); } v.map_end(n); break; }
		case CODE_OPTIONAL: if(*in.InputBuffer::read(1)) { accept_code(v, in, code + 1); } else { v.visit_null(); } break;
		case CODE_DYNAMIC: { Variant t; read(in, t, nullptr, code); accept(v, t); break; }
		case CODE_OBJECT: { Object t; read(in, t, nullptr, code); accept(v, t); break; }
		case CODE_ANY: { auto p = read_value_ptr(in, nullptr, code); accept_value_ptr(v, p.get()); break; }
		default: throw std::runtime_error("vnx: accept");
	}
}
void accept(Visitor& v, const Variant& value) {
	if(value.data.empty()) { v.visit_null(); return; }
	VectorInputStream s(&value.data); TypeInput in(&s);
	std::vector<uint16_t> code(VNX_MAX_BYTE_CODE_SIZE); read_byte_code(in, code.data());
	accept_code(v, in, code.data());
}
void accept(Visitor& v, const Object& value) {
	v.map_begin(value.field.size()); size_t i = 0;
	for(const auto& e : value.field) { v.map_key(i); v.visit(e.first); v.map_value(i); accept(v, e.second); i++; }
	v.map_end(value.field.size());
}

// ---- JSON output --------------------------------------------------------------------------------------------
#define WJ(T, EXPR) void write(std::ostream& out, const T& v) { out << EXPR; }
WJ(uint8_t, unsigned(v)) WJ(uint16_t, v) WJ(uint32_t, v) WJ(uint64_t, v) WJ(int8_t, int(v)) WJ(int16_t, v) WJ(int32_t, v) WJ(int64_t, v) WJ(bool, (v ? "true" : "false"))
void write(std::ostream& out, const double& v) {
	if(!std::isfinite(v)) { out << "null"; return; }
	char tmp[64]; ::snprintf(tmp, sizeof(tmp), "%.17g", v); std::string s = tmp;
	double r = 0; char t2[64]; ::snprintf(t2, sizeof(t2), "%.15g", v); r = ::strtod(t2, nullptr); if(r == v) { s = t2; }
	if(s.find_first_of(".eE") == std::string::npos) { s += ".0"; }
	out << s;
}
void write(std::ostream& out, const float& v) { write(out, double(v)); }
void write(std::ostream& out, const std::string& v) {
	out << '"';
	for(const char c : v) {
		switch(c) {
			case '"': out << "\\\""; break; case '\\': out << "\\\\"; break; case '\n': out << "\\n"; break; case '\r': out << "\\r"; break; case '\t': out << "\\t"; break; case '\b': out << "\\b"; break; case '\f': out << "\\f"; break;
			default: if(uint8_t(c) < 0x20) { char t[8]; ::snprintf(t, 8, "\\u%04x", c); out << t; } else { out << c; }
		}
	}
	out << '"';
}
namespace {
class JsonPrinter : public Visitor {
public:
	std::ostream& out; JsonPrinter(std::ostream& o) : out(o) {}
	struct frame_t { bool object; }; std::vector<int> obj;
	void visit_null() override { out << "null"; }
	void visit(const bool& v) override { write(out, v); } void visit(const uint8_t& v) override { write(out, v); } void visit(const uint16_t& v) override { write(out, v); } void visit(const uint32_t& v) override { write(out, v); } void visit(const uint64_t& v) override { write(out, v); }
	void visit(const int8_t& v) override { write(out, v); } void visit(const int16_t& v) override { write(out, v); } void visit(const int32_t& v) override { write(out, v); } void visit(const int64_t& v) override { write(out, v); }
	void visit(const float& v) override { write(out, v); } void visit(const double& v) override { write(out, v); } void visit(const std::string& v) override { write(out, v); }
	void visit(const uint8_t* d, const size_t n) override { out << "["; for(size_t i = 0; i < n; ++i) { if(i) { out << ", "; } out << unsigned(d[i]); } out << "]"; }
	void list_begin(size_t) override { out << "["; } void list_element(size_t i) override { if(i) { out << ", "; } } void list_end(size_t) override { out << "]"; }
	void map_begin(size_t) override { out << "{"; } void map_key(size_t i) override { if(i) { out << ", "; } } void map_value(size_t) override { out << ": "; } void map_end(size_t) override { out << "}"; }
	void type_begin(const TypeCode& tc) override { out << "{\"__type\": \"" << tc.name << "\""; } void type_field(const TypeField& f, size_t) override { out << ", \"" << f.name << "\": "; } void type_end(const TypeCode&) override { out << "}"; }
	void enum_value(uint32_t v, const std::string& n) override { if(n.empty()) { write(out, v); } else { write(out, n); } }
};
}
void write(std::ostream& out, const Variant& value) { JsonPrinter p(out); accept(p, value); }
void write(std::ostream& out, const Object& value) { JsonPrinter p(out); accept(p, value); }

// ---- JSON input ---------------------------------------------------------------------------------------------
namespace {
struct JsonParser {
	std::istream& in; int depth = 0;
	void ws() { while(in.good() && ::isspace(in.peek())) { in.get(); } }
	int peek() { ws(); return in.peek(); }
	std::string str() {
		std::string out; in.get();
		while(true) {
			const int c = in.get(); if(c == EOF) { throw std::runtime_error("json: EOF in string"); }
			if(c == '"') { return out; }
			if(c == '\\') {
				const int d = in.get();
				switch(d) {
					case 'n': out += '\n'; break; case 'r': out += '\r'; break; case 't': out += '\t'; break; case 'b': out += '\b'; break; case 'f': out += '\f'; break;
					case 'u': { std::string h; for(int i = 0; i < 4; ++i) { h += char(in.get()); } const uint32_t cp = ::strtoul(h.c_str(), nullptr, 16); if(cp < 0x80) { out += char(cp); } else if(cp < 0x800) { out += char(0xC0 | cp >> 6); out += char(0x80 | (cp & 63)); } else { out += char(0xE0 | cp >> 12); out += char(0x80 | (cp >> 6 & 63)); out += char(0x80 | (cp & 63)); } break; }
					default: out += char(d);
				}
			} else { out += char(c); }
		}
	}
	Variant parse() {
		if(++depth > 100) { throw std::runtime_error("json: too deep"); }
		Variant out; const int c = peek();
		if(c == '{') {
			Object o; in.get();
			if(peek() == '}') { in.get(); } else { while(true) {
				if(peek() != '"') { throw std::runtime_error("json: expected key"); }
				const auto key = str(); if(peek() != ':') { throw std::runtime_error("json: expected ':'"); } in.get();
				o[key] = parse(); const int d = peek(); in.get(); if(d == '}') { break; } if(d != ',') { throw std::runtime_error("json: expected ','"); }
			} }
			out = Variant(o);
		} else if(c == '[') {
			std::vector<Variant> l; in.get();
			if(peek() == ']') { in.get(); } else { while(true) { l.push_back(parse()); const int d = peek(); in.get(); if(d == ']') { break; } if(d != ',') { throw std::runtime_error("json: expected ','"); } } }
			out = Variant(l);
		} else if(c == '"') { out = Variant(str()); }
		else if(c == EOF) { throw std::runtime_error("json: EOF"); }
		else {
			std::string tok; while(in.good()) { const int d = in.peek(); if(d == EOF || ::isspace(d) || d == ',' || d == ']' || d == '}' || d == ':') { break; } tok += char(in.get()); }
			if(tok == "null") {} else if(tok == "true") { out = Variant(true); } else if(tok == "false") { out = Variant(false); }
			else {
				if(tok.empty()) { throw std::runtime_error("json: bad token"); }
				char* end = nullptr;
				if(tok.find_first_of(".eE") != std::string::npos) { const double d = ::strtod(tok.c_str(), &end); if(*end) { throw std::runtime_error("json: bad number"); } out = Variant(d); }
				else if(tok[0] == '-') { const long long d = ::strtoll(tok.c_str(), &end, 10); if(*end) { throw std::runtime_error("json: bad number"); } out = Variant(int64_t(d)); }
				else { const unsigned long long d = ::strtoull(tok.c_str(), &end, 10); if(*end) { throw std::runtime_error("json: bad token '" + tok + "'"); } out = Variant(uint64_t(d)); }
			}
		}
		depth--; return out;
	}
};
}
void read(std::istream& in, Variant& value) { JsonParser p{in}; value = p.parse(); }
void read(std::istream& in, Object& value) { Variant v; read(in, v); value = v.is_object() ? v.to_object() : Object(); }
std::vector<std::shared_ptr<JSON_Value>> JSON_Array::get_values() const { std::vector<std::shared_ptr<JSON_Value>> out; for(const auto& v : value.to<std::vector<Variant>>()) { auto e = std::make_shared<JSON_Value>(); e->value = v; out.push_back(e); } return out; }
std::shared_ptr<JSON_Value> read_json(std::istream& in, bool until_end) { Variant tmp; read(in, tmp); std::shared_ptr<JSON_Value> out; if(tmp.is_array()) { out = std::make_shared<JSON_Array>(); } else { out = std::make_shared<JSON_Value>(); } out->value = tmp; if(until_end) { JsonParser p{in}; p.ws(); if(in.peek() != EOF) { throw std::runtime_error("json: trailing data"); } } return out; }
Variant read(std::istream& in) { Variant v; read(in, v); return v; }
// vnx::from_string() on plain words (not JSON quoted) is allowed for strings / numbers
#define RJ(T) void read(std::istream& in, T& value) { Variant v; read(in, v); v.to(value); }
RJ(uint8_t) RJ(uint16_t) RJ(uint32_t) RJ(uint64_t) RJ(int8_t) RJ(int16_t) RJ(int32_t) RJ(int64_t) RJ(float) RJ(double) RJ(bool)
void read(std::istream& in, std::string& value) {
	JsonParser p{in};
	if(p.peek() == '"') { value = p.str(); return; }
	Variant v; read(in, v); value = v.to_string_value();
}
void from_string_value_var(const std::string& str, Variant& v) {
	if(!str.empty() && (str[0] == '{' || str[0] == '[')) { std::istringstream ss(str); read(ss, v); }
	else if(!str.empty() && str.size() < 20 && str.find_first_not_of("0123456789") == std::string::npos) { v = Variant(uint64_t(::strtoull(str.c_str(), nullptr, 10))); }
	else { v = Variant(str); }
}
std::vector<std::string> string_split(const std::string& str, char c, bool clean) {
	std::vector<std::string> out; std::string cur;
	for(char d : str) { if(d == c) { if(!clean || !cur.empty()) { out.push_back(cur); } cur.clear(); } else { cur += d; } }
	if(!clean || !cur.empty()) { out.push_back(cur); }
	return out;
}
std::string string_subs(std::string str, const std::string& find, const std::string& subs) {
	size_t pos = 0; while((pos = str.find(find, pos)) != std::string::npos) { str.replace(pos, find.size(), subs); pos += subs.size(); } return str;
}

// ---- config -------------------------------------------------------------------------------------------------
std::map<std::string, Variant> g_config;
Object read_config_file(const std::string& path) { std::ifstream in(path); Object o; if(in.good()) { read(in, o); } return o; }
void write_config_file(const std::string& path, const Object& object) { std::ofstream out(path); write(out, object); }

// ---- services -----------------------------------------------------------------------------------------------
namespace shim {
static std::map<uint64_t, Module*> services;
void register_service(const std::string& name, Module* m) { services[Hash64(name)] = m; }
void unregister_service(Module* m) { for(auto it = services.begin(); it != services.end();) { if(it->second == m) { it = services.erase(it); } else { it++; } } }
Module* find_service(Hash64 a) { auto it = services.find(a); return it != services.end() ? it->second : nullptr; }
std::vector<published_t>* published = nullptr;
std::function<void(Module*)> module_main;
std::deque<std::function<void()>> async_queue;
size_t pump(size_t max) { size_t n = 0; while(!async_queue.empty() && n < max) { auto f = async_queue.front(); async_queue.pop_front(); f(); n++; } return n; }
}
std::shared_ptr<Pipe> get_pipe(const Hash64& mac) { return shim::find_service(mac) ? std::make_shared<Pipe>() : nullptr; }
static uint64_t g_next_request_id = 1;
std::shared_ptr<Value> Module::shim_dispatch(std::shared_ptr<const Value> method, const std::function<void(std::shared_ptr<const Value>)>& on_return) {
	request_id_t id; id.id = g_next_request_id++;
	vnx_returns[id.id] = on_return;
	std::shared_ptr<Value> ret;
	try { ret = vnx_call_switch(method, id); }
	catch(const std::exception& ex) { ret = Exception::from_what(ex.what()); }
	if(ret) { vnx_returns.erase(id.id); on_return(ret); }
	return ret;
}
void Module::vnx_async_return(const request_id_t& id, std::shared_ptr<const Value> value) const {
	auto it = vnx_returns.find(id.id);
	if(it != vnx_returns.end()) { auto f = it->second; vnx_returns.erase(it); f(value); }
}
std::shared_ptr<const Value> Client::vnx_request(std::shared_ptr<const Value> method, bool is_async) {
	auto* m = shim::find_service(addr);
	if(!m) { if(is_async) { return nullptr; } throw vnx::exception(std::make_shared<NoSuchService>()); }
	std::shared_ptr<const Value> out; bool done = false;
	m->shim_dispatch(method, [&](std::shared_ptr<const Value> v) { out = v; done = true; });
	if(!done) { throw std::runtime_error("shim: async method did not return"); }
	if(auto ex = std::dynamic_pointer_cast<const Exception>(out)) { if(!is_async) { throw vnx::exception(ex); } }
	return out;
}
void AsyncClient::vnx_request(std::shared_ptr<const Value> method, uint64_t id) {
	shim::async_queue.push_back([this, method, id]() {
		auto ret = [this, id](std::shared_ptr<const Value> v) {
			if(auto ex = std::dynamic_pointer_cast<const Exception>(v)) { vnx_purge_request(id, vnx::exception(ex)); } else { vnx_callback_switch(id, v); }
		};
		auto* m = shim::find_service(addr);
		if(!m) { ret(std::make_shared<NoSuchService>()); return; }
		m->shim_dispatch(method, ret);
	});
}

} // vnx
