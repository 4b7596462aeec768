// Stand-in for vnx-base / vnx-addons, part 2: files, modules, clients, http types.
#ifndef SHIM_VNX_ALL_H
#define SHIM_VNX_ALL_H

#include "core.h"
#include <cassert>
#include <dlfcn.h>

namespace vnx {

// ---- simulated process crash / torn writes ------------------------------------------------------------------
namespace shim {
struct crash_t {};						// not a std::exception on purpose: nobody may swallow it
struct io_state_t {
	bool crashed = false;				// all further file effects are dropped
	int64_t op_count = 0;				// number of effects on the file system so far
	int64_t crash_at = -1;				// op index at which the process dies
	uint32_t torn = 0;					// 0..1000: permille of the crashing write which still reaches the file
	size_t out_buf_size = VNX_BUFFER_SIZE;
	std::vector<std::string>* trace = nullptr;
	// called before each effect; returns number of bytes to perform (n = all), or throws
	size_t before_write(const std::string& path, size_t n);
	void before_op(const char* kind, const std::string& path);
	bool check_crash();
};
extern io_state_t io;
extern bool verbose;
// virtual clock, used for get_wall_time_*; 0 = real time
extern int64_t wall_time_us;
} // shim

class File : public InputStream, public OutputStream {
public:
	TypeInput in; TypeOutput out;
	File() : in(this), out(this, shim::io.out_buf_size) {}
	File(const std::string& path) : in(this), out(this, shim::io.out_buf_size), path(path) {}
	File(const File& o) : in(this), out(this, shim::io.out_buf_size), path(o.path) {}
	File& operator=(const File&) = delete;
	~File() { try { close(); } catch(...) {} }
	void open(const std::string& path_, const std::string& mode) { close(); path = path_; open(mode); }
	void open(const std::string& mode);
	void close();
	bool is_open() const { return fd >= 0; }
	bool exists() const;
	void remove();
	void rename(const std::string& new_path);
	void flush() override;
	void seek_to(int64_t pos);
	void seek_begin() { seek_to(0); }
	void seek_end();
	void lock_exclusive() {}
	void unlock() {}
	int64_t file_size() const;
	int64_t last_write_time() const;
	int get_handle() const { return fd; }
	std::string get_path() const { return path; }
	std::string get_name(bool with_extension = true) const {
		auto p = path.rfind('/'); auto name = p == std::string::npos ? path : path.substr(p + 1);
		if(!with_extension) { auto d = name.rfind('.'); if(d != std::string::npos) { name = name.substr(0, d); } }
		return name;
	}
	std::string get_extension() const { const auto name = get_name(); auto d = name.rfind('.'); return d == std::string::npos ? std::string() : name.substr(d); }
	int64_t get_input_pos() const override { return in.InputBuffer::get_input_pos(); }
	int64_t get_output_pos() const override { return out.OutputBuffer::get_output_pos(); }
	size_t read(void* buf, size_t len) override;
	void write(const void* buf, size_t len) override;
private:
	std::string path; int fd = -1;
};

class Directory {
public:
	Directory() = default;
	Directory(const std::string& path) : path(path) {}
	void open(const std::string& p) { path = p; }
	void create();
	bool exists() const;
	void remove();
	std::string get_path() const { return path; }
	std::string get_name() const { return path; }
	std::vector<std::shared_ptr<File>> files() const;
	std::vector<std::shared_ptr<Directory>> directories() const;
	std::vector<std::shared_ptr<File>> all_files() const;
private:
	std::string path;
};

// Runs everything inline: deterministic and single threaded.
class ThreadPool {
public:
	ThreadPool(int = 0, int = 0) {}
	int64_t add_task(const std::function<void()>& func) { func(); return ++next_id; }
	void sync() {}
	void sync(int64_t) {}
	void sync(const std::vector<int64_t>&) {}
	void close() {}
	size_t get_num_pending() const { return 0; }
	size_t get_num_pending_total() const { return 0; }
	size_t get_num_running() const { return 0; }
private:
	int64_t next_id = 0;
};

// ---- exceptions ---------------------------------------------------------------------------------------------
class Exception : public Value {
public:
	std::string what, type;
	static std::shared_ptr<Exception> create() { return std::make_shared<Exception>(); }
	std::string get_type_name() const override { return "vnx.Exception"; }
	std::shared_ptr<Value> clone() const override { return std::make_shared<Exception>(*this); }
	static std::shared_ptr<Exception> from_what(const std::string& what) { auto e = create(); e->what = what; return e; }
};
class NoSuchMethod : public Exception { public: std::string method; static std::shared_ptr<NoSuchMethod> create() { return std::make_shared<NoSuchMethod>(); } };
class OverflowException : public Exception { public: static std::shared_ptr<OverflowException> create() { return std::make_shared<OverflowException>(); } };
class InternalError : public Exception { public: static std::shared_ptr<InternalError> create() { return std::make_shared<InternalError>(); } };
class NoSuchService : public Exception { public: static std::shared_ptr<NoSuchService> create() { return std::make_shared<NoSuchService>(); } };
class permission_denied : public std::runtime_error { public: permission_denied() : std::runtime_error("permission denied") {} permission_denied(const std::string& s) : std::runtime_error("permission denied: " + s) {} template<typename T> permission_denied(const T&) : std::runtime_error("permission denied") {} };

class exception : public std::exception {
public:
	exception() {}
	exception(std::shared_ptr<const Exception> v) : value_(v), what_(v ? v->what : "") {}
	exception(const std::string& w) : value_(Exception::from_what(w)), what_(w) {}
	const char* what() const noexcept override { return what_.c_str(); }
	std::shared_ptr<const Exception> value() const { return value_; }
private:
	std::shared_ptr<const Exception> value_; std::string what_;
};

// ---- logging ------------------------------------------------------------------------------------------------
class LogStream {
public:
	LogStream(int level = 2) : level(level) {}
	LogStream(LogStream&& o) : ss(std::move(o.ss)), level(o.level) { o.level = -1; }
	~LogStream() { if(level >= 0 && shim::verbose) { std::cerr << "[" << level << "] " << ss.str() << std::endl; } }
	template<typename T> LogStream& operator<<(const T& v) { if(shim::verbose) { ss << v; } return *this; }
	LogStream& operator<<(std::ostream& (*f)(std::ostream&)) { if(shim::verbose) { ss << f; } return *this; }
	operator std::ostream&() { return ss; }
	std::ostringstream ss;
private:
	int level;
};
inline LogStream log_info() { return LogStream(2); }
inline LogStream log_warn() { return LogStream(1); }
inline LogStream log_error() { return LogStream(0); }
inline LogStream log_debug() { return LogStream(3); }
inline LogStream log_out(int level = 2, const std::string& = "") { return LogStream(level); }
class LogMsg : public Value { public: int64_t time = 0; int32_t level = 0; std::string module, message, process; uint32_t display_level = 0;
	static std::shared_ptr<LogMsg> create() { return std::make_shared<LogMsg>(); }
	enum { ERROR = 1, WARN = 2, INFO = 3, DEBUG = 4 };
	std::string get_output() const { return message; }
};

// ---- config -------------------------------------------------------------------------------------------------
extern std::map<std::string, Variant> g_config;
template<typename T> bool read_config(const std::string& name, T& value) {
	auto it = g_config.find(name); if(it == g_config.end()) { return false; }
	it->second.to(value); return true;
}
template<typename T> void write_config(const std::string& name, const T& value) { g_config[name] = Variant(value); }
template<typename T> void set_config(const std::string& name, const T& value) { g_config[name] = Variant(value); }
inline Variant get_config(const std::string& name, bool = false) { auto it = g_config.find(name); return it != g_config.end() ? it->second : Variant(); }
inline Object get_all_configs(bool = false) { return Object(g_config); }
inline bool is_config_protected(const std::string&) { return false; }
Object read_config_file(const std::string& path);
void write_config_file(const std::string& path, const Object& object);
template<typename T> std::shared_ptr<T> read_from_file(const std::string& path) {
	File file(path); if(!file.exists()) { return nullptr; }
	file.open("rb");
	const auto begin = file.in.get_input_pos(); uint32_t magic = 0; vnx::read(file.in, magic);
	if(magic != 0x3713FFFF) { file.seek_to(begin); }
	auto value = vnx::read(file.in); file.close();
	return std::dynamic_pointer_cast<T>(value);
}
inline std::shared_ptr<Value> read_from_file(const std::string& path) { return read_from_file<Value>(path); }
template<typename T> void write_to_file(const std::string& path, const T& value) {
	File file(path); file.open("wb"); vnx::write(file.out, value); file.close();
}
struct init_options_t { bool allow_remote = false; std::string a; };
struct app_options_t : std::map<std::string, std::string> {};
template<typename... Ts> void init(Ts&&...) {}
inline void wait() {}
inline void close() {}
inline bool do_run() { return true; }
inline std::string input_password(const std::string&) { return ""; }

int64_t get_wall_time_micros();
inline int64_t get_wall_time_millis() { return get_wall_time_micros() / 1000; }
inline int64_t get_wall_time_seconds() { return get_wall_time_micros() / 1000000; }
inline int64_t get_time_micros() { return get_wall_time_micros(); }
inline int64_t get_time_millis() { return get_wall_time_millis(); }
inline int64_t get_time_seconds() { return get_wall_time_seconds(); }
inline std::string get_date_string(bool = false, int64_t = 0) { return "date"; }
inline std::string get_date_string_ex(const std::string&, bool = false, int64_t = 0, bool = false) { return "date"; }
inline std::string get_host_name() { return "localhost"; }
inline std::string resolve_host(const std::string& name) { return name; }
inline bool is_valid_ip_addr(const std::string&) { return true; }

// ---- messaging ----------------------------------------------------------------------------------------------
struct request_id_t { uint64_t id = 0; Hash64 src; std::shared_ptr<void> session;
	bool operator==(const request_id_t& o) const { return id == o.id; } bool operator<(const request_id_t& o) const { return id < o.id; } bool operator!=(const request_id_t& o) const { return id != o.id; } };
} // vnx
namespace std { template<> struct hash<vnx::Hash64> { size_t operator()(const vnx::Hash64& v) const { return v.value; } };
template<> struct hash<vnx::request_id_t> { size_t operator()(const vnx::request_id_t& v) const { return v.id; } }; }
namespace vnx {

class TopicPtr {
public:
	std::string name;
	TopicPtr() = default; TopicPtr(const char* n) : name(n) {} TopicPtr(const std::string& n) : name(n) {}
	TopicPtr& operator=(const std::string& n) { name = n; return *this; }
	TopicPtr& operator=(const char* n) { name = n; return *this; }
	operator bool() const { return !name.empty(); }
	std::string get_name() const { return name; }
	bool operator==(const TopicPtr& o) const { return name == o.name; }
	bool operator!=(const TopicPtr& o) const { return name != o.name; }
	bool operator<(const TopicPtr& o) const { return name < o.name; }
};
template<> struct dyn_code_of<TopicPtr> { static void get(std::vector<uint16_t>& code, const TopicPtr&) { code.push_back(CODE_STRING); } };
inline void read(TypeInput& in, TopicPtr& v, const TypeCode* tc = nullptr, const uint16_t* c = nullptr) { read(in, v.name, tc, c); }
inline void write(TypeOutput& out, const TopicPtr& v, const TypeCode* tc = nullptr, const uint16_t* c = nullptr) { write(out, v.name, tc, c); }
inline void read(std::istream& in, TopicPtr& v) { read(in, v.name); }
inline void write(std::ostream& out, const TopicPtr& v) { write(out, v.name); }
inline void accept(Visitor& vis, const TopicPtr& v) { vis.visit(v.name); }
inline std::ostream& operator<<(std::ostream& out, const TopicPtr& v) { return out << v.name; }

class Session : public Value { public: Hash64 id; Hash64 vsid; std::string user; std::set<std::string> permissions; std::shared_ptr<const void> user_obj; bool all = true;
	template<typename T> bool has_permission(const T& p) const { return all || permissions.count(str(p)); } private: template<typename T> static std::string str(const T& p) { if constexpr(std::is_convertible<T, std::string>::value) { return p; } else { return p.to_string_value_full(); } } };
inline std::shared_ptr<const Session> get_session(Hash64) { return nullptr; }
class Sample : public Value { public: uint64_t seq_num = 0; int64_t time = 0; int64_t recv_time = 0; TopicPtr topic; std::shared_ptr<const Value> value; Hash64 src_mac; };
class ModuleInfo : public Value { public: std::string name; int64_t time_started_ms = 0; int64_t time_running = 0; Hash64 id; };
struct Request : public Value { std::shared_ptr<const Session> session; Hash64 src_mac; std::shared_ptr<const Value> method; };

class permission_e { public: enum enum_t : uint32_t { VIEW = 1, CONST_REQUEST = 2, REQUEST = 3, PROTECTED_CONFIG = 4, INTERCEPT = 5, START = 6, STOP = 7, RESTART = 8, SHUTDOWN = 9, HOST_SHUTDOWN = 10, SELF_TEST = 11, PROXY_IMPORT, PROXY_EXPORT, PROXY_FORWARD, LOCAL, PUBLISH, TIME_SYNC, READ_CONFIG, WRITE_CONFIG };
	enum_t value; permission_e(enum_t v) : value(v) {} operator enum_t() const { return value; } std::string to_string() const { return std::to_string(value); } std::string to_string_value_full() const { return to_string(); } };

class Pipe { public: void close() {} void pause() {} void resume() {} };
template<typename... Ts> std::shared_ptr<Pipe> open_pipe(Ts&&...) { return std::make_shared<Pipe>(); }
template<typename T> std::shared_ptr<Pipe> get_pipe(const T&) { return std::make_shared<Pipe>(); }
std::shared_ptr<Pipe> get_pipe(const Hash64& mac);		// only if there is such a service
template<typename... Ts> void open_flow(Ts&&...) {}

class Timer { public: std::function<void()> func; int64_t period_us = 0; bool active = false; bool is_repeat = false;
	void set_millis(int64_t ms) { period_us = ms * 1000; } void set_micros(int64_t us) { period_us = us; } void reset() { active = true; } void stop() { active = false; } bool is_active() const { return active; }
	int64_t interval() const { return period_us; } };

class Module; class AsyncClient;
namespace shim {
	void register_service(const std::string& name, Module* module);
	void unregister_service(Module* module);
	Module* find_service(Hash64 addr);
	struct published_t { Module* module; std::string topic; std::shared_ptr<const Value> value; };
	inline std::mutex publish_mutex;		// publish() is called from many threads
	extern std::vector<published_t>* published;		// if set, publish() appends
	extern std::function<void(Module*)> module_main;
	extern std::deque<std::function<void()>> async_queue;	// pending async calls
	size_t pump(size_t max = 1000000);
}

class Module : public Value {
public:
	enum { ERROR = 1, WARN = 2, INFO = 3, DEBUG = 4, BLOCKING = 8, UNBUFFERED = 16 };
	std::string vnx_name;
	std::shared_ptr<const Session> vnx_session = std::make_shared<Session>();
	std::shared_ptr<const Sample> vnx_sample;
	std::shared_ptr<const Request> vnx_request = std::make_shared<Request>();
	Module(const std::string& name) : vnx_name(name) {}
	~Module() { shim::unregister_service(this); }
	Hash64 vnx_get_id() const { return Hash64(vnx_name + "#id"); }
	virtual void init() {}
	virtual void main() { if(shim::module_main) { shim::module_main(this); } }
	virtual void notify(std::shared_ptr<Pipe>) {}
	void exit() { do_run_ = false; }
	bool vnx_do_run() const { return do_run_; }
	void vnx_restart() {} void vnx_stop() { exit(); } bool vnx_self_test() { return true; }
	void vnx_setup(const std::string&, int = 0) {}
	Object vnx_get_config_object() const { return to_object(); }
	Variant vnx_get_config(const std::string& n) const { return get_field(n); }
	void vnx_set_config_object(const Object& o) { from_object(o); }
	void vnx_set_config(const std::string& n, const Variant& v, bool = false) { set_field(n, v); }
	TypeCode vnx_get_type_code() const { auto* tc = get_type_code(); return tc ? *tc : TypeCode(); }
	std::shared_ptr<const ModuleInfo> vnx_get_module_info() const { return std::make_shared<ModuleInfo>(); }
	std::shared_ptr<Value> shim_dispatch(std::shared_ptr<const Value> method, const std::function<void(std::shared_ptr<const Value>)>& on_return);
	void shim_handle(std::shared_ptr<const Value> v) { vnx_handle_switch(v); }
	template<typename T> void publish(std::shared_ptr<T> value, const TopicPtr& topic, int = 0) const { if(shim::published) { std::lock_guard<std::mutex> publish_lock(shim::publish_mutex); shim::published->push_back({const_cast<Module*>(this), topic.name, value}); } }
	template<typename... Ts> void subscribe(Ts&&...) {}
	std::shared_ptr<Timer> set_timer_millis(int64_t ms, const std::function<void()>& f) { auto t = std::make_shared<Timer>(); t->func = f; t->set_millis(ms); t->active = true; t->is_repeat = true; vnx_timers.push_back(t); return t; }
	std::shared_ptr<Timer> set_timer_micros(int64_t us, const std::function<void()>& f) { return set_timer_millis(us / 1000, f); }
	std::shared_ptr<Timer> set_timeout_millis(int64_t ms, const std::function<void()>& f) { auto t = set_timer_millis(ms, f); t->is_repeat = false; return t; }
	std::shared_ptr<Timer> set_timeout_micros(int64_t us, const std::function<void()>& f) { return set_timeout_millis(us / 1000, f); }
	std::shared_ptr<Timer> add_timer(const std::function<void()>& f) { auto t = set_timer_millis(0, f); t->active = false; t->is_repeat = false; return t; }
	int64_t add_task(const std::function<void()>& f) const { vnx_tasks.push_back(f); return vnx_tasks.size(); }
	template<typename T> void add_async_client(T&&) {}
	LogStream log(int level) const { return LogStream(level); }
	void vnx_async_return(const request_id_t& id, std::shared_ptr<const Value> value) const;
	void vnx_async_return_ex(const request_id_t& id, const std::exception& ex) const { vnx_async_return_ex_what(id, ex.what()); }
	void vnx_async_return_ex_what(const request_id_t& id, const std::string& what) const { vnx_async_return(id, Exception::from_what(what)); }
	size_t vnx_get_num_async_pending() const { return 0; }
	size_t vnx_run_tasks() { size_t n = 0; while(!vnx_tasks.empty()) { auto f = vnx_tasks.front(); vnx_tasks.pop_front(); f(); n++; } return n; }
	std::vector<std::shared_ptr<Timer>> vnx_timers;
	mutable std::deque<std::function<void()>> vnx_tasks;
	mutable std::map<uint64_t, std::function<void(std::shared_ptr<const Value>)>> vnx_returns;
	virtual void handle(std::shared_ptr<const Value>) {}
	virtual void handle(std::shared_ptr<const LogMsg>) {}
protected:
	virtual void vnx_handle_switch(std::shared_ptr<const Value>) {}
	using Value::vnx_call_switch;
	virtual std::shared_ptr<Value> vnx_call_switch(std::shared_ptr<const Value>, const request_id_t&) { return nullptr; }
private:
	bool do_run_ = true;
};

template<typename T> class Handle {
public:
	Handle() = default;
	Handle(T* p) : p(p) {}
	Handle& operator=(T* q) { p.reset(q); return *this; }
	T* operator->() const { return p.get(); }
	T& operator*() const { return *p; }
	operator bool() const { return bool(p); }
	T* get() const { return p.get(); }
	void start() {} void start_detached() {} void wait() {} void exit() {} void close() {} void reset() { p.reset(); } void detach() {}
	std::string get_name() const { return p ? p->vnx_name : ""; }
	Hash64 get_id() const { return p ? p->vnx_get_id() : Hash64(); }
private:
	std::shared_ptr<T> p;
};

class Client {
public:
	Client() = default;
	Client(Hash64 addr) : addr(addr) {}
	virtual ~Client() {}
	void vnx_set_non_blocking(bool) {}
	void vnx_set_session(Hash64) {}
	void vnx_set_debug_name(const std::string&) {}
	void vnx_set_service_addr(Hash64 a) { addr = a; }
	Hash64 vnx_get_service_addr() const { return addr; }
	std::shared_ptr<const Value> vnx_request(std::shared_ptr<const Value> method, bool is_async);
protected:
	Hash64 addr;
};
class AsyncClient {
public:
	AsyncClient() = default;
	AsyncClient(Hash64 addr) : addr(addr) {}
	virtual ~AsyncClient() {}
	void vnx_set_non_blocking(bool) {}
	void vnx_set_service_addr(Hash64 a) { addr = a; }
	Hash64 vnx_get_service_addr() const { return addr; }
	size_t vnx_get_num_pending() const { return vnx_pending.size(); }
	std::vector<uint64_t> vnx_get_pending_ids() const { std::vector<uint64_t> out; for(const auto& e : vnx_pending) { out.push_back(e.first); } return out; }
	virtual int32_t vnx_purge_request(uint64_t, const vnx::exception&) = 0;
	virtual int32_t vnx_callback_switch(uint64_t, std::shared_ptr<const Value>) = 0;
	void vnx_request(std::shared_ptr<const Value> method, uint64_t id);
protected:
	mutable std::mutex vnx_mutex;
	std::unordered_map<uint64_t, int32_t> vnx_pending;
	std::atomic<uint64_t> vnx_next_id{0};
	Hash64 addr;
};

class Endpoint : public Value { public: virtual std::string to_url() const { return ""; } static std::shared_ptr<const Endpoint> from_url(const std::string&); };
class TcpEndpoint : public Endpoint { public: std::string host_name; int32_t port = 0; static constexpr int32_t default_port = 4444; static std::shared_ptr<TcpEndpoint> create() { return std::make_shared<TcpEndpoint>(); }
	std::shared_ptr<Value> clone() const override { return std::make_shared<TcpEndpoint>(*this); } std::string to_url() const override { return host_name; } };
inline std::shared_ptr<const Endpoint> Endpoint::from_url(const std::string& u) { auto e = TcpEndpoint::create(); e->host_name = u; return e; }

// ---- method classes of ModuleInterface ----------------------------------------------------------------------
#define SHIM_METHOD_CLASS(NAME, ID, FIELDS, NFIELDS, GETTER) \
	class NAME : public ::vnx::Value { public: FIELDS \
		static constexpr uint64_t VNX_TYPE_ID = ID; static const ::vnx::TypeCode* static_get_type_code() { static ::vnx::TypeCode* tc = [](){ auto* t = new ::vnx::TypeCode(); t->name = #NAME; t->type_hash = ::vnx::Hash64(uint64_t(ID)); t->fields.resize(NFIELDS); return t; }(); return tc; } \
		static std::shared_ptr<NAME> create() { return std::make_shared<NAME>(); } \
		::vnx::Hash64 get_type_hash() const override { return ::vnx::Hash64(uint64_t(ID)); } std::string get_type_name() const override { return #NAME; } \
		const ::vnx::TypeCode* get_type_code() const override { return static_get_type_code(); } std::shared_ptr<::vnx::Value> clone() const override { return std::make_shared<NAME>(*this); } \
		::vnx::Variant get_field_by_index(const uint32_t&) const override { return GETTER; } };
SHIM_METHOD_CLASS(ModuleInterface_vnx_get_config, 0xbbc7f1a01044d294ull, std::string name;, 1, Variant(name))
SHIM_METHOD_CLASS(ModuleInterface_vnx_get_config_return, 1001, Variant _ret_0;, 1, _ret_0)
SHIM_METHOD_CLASS(ModuleInterface_vnx_get_config_object, 0x17f58f68bf83abc0ull, , 0, Variant())
SHIM_METHOD_CLASS(ModuleInterface_vnx_get_config_object_return, 1002, Object _ret_0;, 1, Variant(_ret_0))
SHIM_METHOD_CLASS(ModuleInterface_vnx_get_module_info, 0xf6d82bdf66d034a1ull, , 0, Variant())
SHIM_METHOD_CLASS(ModuleInterface_vnx_get_module_info_return, 1003, std::shared_ptr<const ModuleInfo> _ret_0;, 1, Variant())
SHIM_METHOD_CLASS(ModuleInterface_vnx_get_type_code, 0x305ec4d628960e5dull, , 0, Variant())
SHIM_METHOD_CLASS(ModuleInterface_vnx_get_type_code_return, 1004, TypeCode _ret_0;, 1, Variant())
SHIM_METHOD_CLASS(ModuleInterface_vnx_restart, 0x9e95dc280cecca1bull, , 0, Variant())
SHIM_METHOD_CLASS(ModuleInterface_vnx_restart_return, 1005, , 0, Variant())
SHIM_METHOD_CLASS(ModuleInterface_vnx_self_test, 0x6ce3775b41a42697ull, , 0, Variant())
SHIM_METHOD_CLASS(ModuleInterface_vnx_self_test_return, 1006, bool _ret_0 = false;, 1, Variant(_ret_0))
SHIM_METHOD_CLASS(ModuleInterface_vnx_set_config, 0x362aac91373958b7ull, std::string name; Variant value;, 2, Variant())
SHIM_METHOD_CLASS(ModuleInterface_vnx_set_config_return, 1007, , 0, Variant())
SHIM_METHOD_CLASS(ModuleInterface_vnx_set_config_object, 0xca30f814f17f322full, Object config;, 1, Variant())
SHIM_METHOD_CLASS(ModuleInterface_vnx_set_config_object_return, 1008, , 0, Variant())
SHIM_METHOD_CLASS(ModuleInterface_vnx_stop, 0x7ab49ce3d1bfc0d2ull, , 0, Variant())
SHIM_METHOD_CLASS(ModuleInterface_vnx_stop_return, 1009, , 0, Variant())


class Server : public Module { public: template<typename... Ts> Server(const std::string& n, Ts&&...) : Module(n) {} std::shared_ptr<const Endpoint> endpoint; bool use_authentication = false, default_access = false; };
class Proxy : public Module { public: template<typename... Ts> Proxy(const std::string& n, Ts&&...) : Module(n) {} std::vector<std::string> forward_list, import_list, export_list, tunnel_list; std::map<std::string, std::string> tunnel_map; bool auto_import = false, time_sync = false, block_until_connect = false, no_retry = false; };
class ProxyClient : public Client { public: ProxyClient(const std::string& n) : Client(Hash64(n)) {} template<typename... Ts> std::string select_service(Ts&&...) { return ""; } template<typename... Ts> void login(Ts&&...) {} };
class ProcessClient : public Client { public: ProcessClient(const std::string& n) : Client(Hash64(n)) {} void trigger_shutdown() {} void trigger_shutdown_async() {} };
class Terminal : public Module { public: Terminal(const std::string& n) : Module(n) {} };

// ---- addons -------------------------------------------------------------------------------------------------
namespace addons {
class HttpRequest : public Value { public: std::string method, path, content_type; std::map<std::string, std::string> query_params; std::vector<std::pair<std::string, std::string>> headers; Buffer payload; std::shared_ptr<const Session> session; Hash64 id;
	static std::shared_ptr<HttpRequest> create() { return std::make_shared<HttpRequest>(); } std::shared_ptr<Value> clone() const override { return std::make_shared<HttpRequest>(*this); } };
class HttpResponse : public Value { public: int32_t status = 0; std::string content_type; std::vector<std::pair<std::string, std::string>> headers; Buffer payload; std::string text;
	static std::shared_ptr<HttpResponse> create() { return std::make_shared<HttpResponse>(); } std::shared_ptr<Value> clone() const override { return std::make_shared<HttpResponse>(*this); }
	bool is_json() const { return content_type == "application/json"; } Variant parse_json() const { std::istringstream ss(text); auto v = vnx::read_json(ss); return v ? v->value : Variant(); }
	static std::shared_ptr<HttpResponse> from_status(int32_t s) { auto r = create(); r->status = s; return r; }
	static std::shared_ptr<HttpResponse> from_text_ex(const std::string& t, int32_t s) { auto r = from_status(s); r->text = t; r->content_type = "text/plain"; return r; }
	static std::shared_ptr<HttpResponse> from_text(const std::string& t) { return from_text_ex(t, 200); }
	static std::shared_ptr<HttpResponse> from_variant_json(const Variant& v) { auto r = from_status(200); r->text = v.to_string(); r->content_type = "application/json"; return r; }
	static std::shared_ptr<HttpResponse> from_object_json(const Object& v) { auto r = from_status(200); r->text = v.to_string(); r->content_type = "application/json"; return r; }
};
class HttpData : public Value { public: Buffer data; bool is_eof = false; };
SHIM_METHOD_CLASS(HttpComponent_http_request, 0xe0b6c38f619bad92ull, std::shared_ptr<const HttpRequest> request; std::string sub_path;, 2, Variant())
SHIM_METHOD_CLASS(HttpComponent_http_request_return, 1010, std::shared_ptr<const HttpResponse> _ret_0;, 1, Variant())
SHIM_METHOD_CLASS(HttpComponent_http_request_chunk, 0x97e79d08440406d5ull, std::shared_ptr<const HttpRequest> request; std::string sub_path; int64_t offset = 0; int64_t max_bytes = 0;, 4, Variant())
SHIM_METHOD_CLASS(HttpComponent_http_request_chunk_return, 1011, std::shared_ptr<const HttpData> _ret_0;, 1, Variant())
template<typename T> class HttpInterface : public AsyncClient { public: HttpInterface(T*, const std::string&) {} template<typename... Ts> void http_request(Ts&&...) {} template<typename... Ts> void http_request_chunk(Ts&&...) {}
	int32_t vnx_purge_request(uint64_t, const vnx::exception&) override { return 0; } int32_t vnx_callback_switch(uint64_t, std::shared_ptr<const Value>) override { return 0; } };
struct http_request_options_t { std::map<std::string, std::string> query, headers; std::string content_type; int32_t timeout_ms = 0; bool follow_redirects = false; std::string user, passwd; };
class HttpClient : public Module { public: HttpClient(const std::string& n) : Module(n) {} TopicPtr output_response; int32_t connection_timeout_ms = 0; };
class HttpClientClient : public Client { public: HttpClientClient(const std::string& n) : Client(Hash64(n)) {} template<typename... Ts> std::shared_ptr<const HttpResponse> get(Ts&&...) { return nullptr; } template<typename... Ts> Variant get_json(Ts&&...) { return Variant(); } };
class HttpClientAsyncClient : public AsyncClient { public: HttpClientAsyncClient(Hash64 a) : AsyncClient(a) {}
	uint64_t get_json(const std::string&, const http_request_options_t&, const std::function<void(const Variant&)>&, const std::function<void(const vnx::exception&)>& = {}) { return 0; }
	uint64_t post_json(const std::string&, const std::string&, const http_request_options_t&, const std::function<void(std::shared_ptr<const HttpResponse>)>&, const std::function<void(const vnx::exception&)>& = {}) { return 0; }
	int32_t vnx_purge_request(uint64_t, const vnx::exception&) override { return 0; } int32_t vnx_callback_switch(uint64_t, std::shared_ptr<const Value>) override { return 0; } };

class TcpServerBase : public Module {
public:
	static const vnx::TypeCode* static_get_type_code() { return nullptr; }
public:
	struct peer_t { virtual ~peer_t() {} uint64_t client = 0; bool is_blocked = false, is_outbound = false; std::string address; size_t bytes_send_queue = 0; uint64_t bytes_send = 0, bytes_recv = 0, bytes_send_raw = 0, bytes_recv_raw = 0; uint64_t write_queue_size = 0; Buffer buffer; Buffer msg_buffer; uint64_t msg_count = 0;
		VectorInputStream in_stream{&msg_buffer}; TypeInput in{&in_stream}; std::deque<std::shared_ptr<Buffer>> write_queue; };
	TcpServerBase(const std::string& n) : Module(n) {}
	uint16_t port = 0; std::string host; int32_t tcp_keepalive = 0; int32_t max_connections = -1; int32_t listen_queue_size = 10; int32_t stats_interval_ms = 0; int32_t connection_timeout_ms = 0, send_buffer_size = 0, receive_buffer_size = 0; bool tcp_no_delay = true; bool show_warnings = false; int32_t num_async_connect = 8;
	virtual uint64_t connect_client(const TcpEndpoint&) { return 0; }
	virtual void disconnect(uint64_t) {}
	virtual void resume(uint64_t) {} virtual void pause(uint64_t) {}
	virtual void on_pause(uint64_t) {} virtual void on_resume(uint64_t) {}
	virtual void on_connect(uint64_t, const std::string&) {} virtual void on_disconnect(uint64_t, const std::string&) {}
	virtual bool on_read(uint64_t, size_t) { return true; } virtual void on_buffer(uint64_t, void*&, size_t&) {}
	virtual void send_to(uint64_t, const Buffer&) {}
	virtual void send_to(std::shared_ptr<peer_t>, const Buffer&) {}
	virtual void print_stats() {}
	virtual uint64_t add_peer(std::shared_ptr<peer_t>) { return 0; }
	virtual std::shared_ptr<peer_t> get_peer_base_tcp(uint64_t) const { return nullptr; }
};
class MsgServer : public TcpServerBase {
public:
	struct peer_t : TcpServerBase::peer_t {};
	MsgServer(const std::string& n) : TcpServerBase(n) {}
	int64_t max_msg_size = 0, max_write_queue = 0, compress_level = 0;
	virtual void on_msg(uint64_t, std::shared_ptr<const Value>) {}
	virtual bool send_msg(uint64_t, std::shared_ptr<const Value>) { return true; }
	std::function<void(std::shared_ptr<peer_t>, std::shared_ptr<const Value>)> shim_on_send;
	bool send_to(std::shared_ptr<peer_t> peer, std::shared_ptr<const Value> msg) { if(shim_on_send) { shim_on_send(peer, msg); } return true; }
	using TcpServerBase::send_to;
	virtual std::shared_ptr<peer_t> get_peer_base(uint64_t) const { return nullptr; }
	void print_stats() override {}
};
typedef MsgServer MsgServerBase;
class HttpServer : public Module { public: HttpServer(const std::string& n) : Module(n) {} std::map<std::string, std::string> components; };
class FileServer : public Module { public: FileServer(const std::string& n) : Module(n) {} std::string www_root; };
template<typename T> class HttpBalancer : public Module { public: HttpBalancer(const std::string& n) : Module(n) {} };
} // addons

} // vnx
#endif
