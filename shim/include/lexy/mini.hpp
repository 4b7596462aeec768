// Minimal stand-in for the subset of foonathan/lexy used by src/vm/Compiler.cpp.
// Same observable parse trees (productions, tokens, "whitespace" nodes), no error recovery.
#pragma once
#include <deque>
#include <vector>
#include <string>
#include <cstring>
#include <type_traits>
#include <utility>
#include <cstdint>
#include <cstddef>

namespace lexy {

struct utf8_encoding {}; struct ascii_encoding {};
struct token_production {}; struct transparent_production {};

template<typename Enc> class string_input {
public:
	const char* b = nullptr; const char* e = nullptr;
	string_input(const std::string& s) : b(s.data()), e(s.data() + s.size()) {}
	const char* begin() const { return b; } const char* end() const { return e; }
};
template<typename I> struct input_reader {};

namespace detail {
struct node_data {
	const char* kind = ""; bool token = false;
	const char* b = nullptr; const char* e = nullptr;
	node_data* parent = nullptr; std::vector<node_data*> children;
};
struct context {
	std::deque<node_data>* pool; node_data* cur; const char* pos; const char* end; const char* begin;
	const char* (*ws)(const char*, const char*) = nullptr;
	int no_ws = 0; int quiet = 0; bool brk = false;
	void add(const char* kind, const char* b, const char* e) {
		if(quiet) return;
		pool->emplace_back(); auto& n = pool->back(); n.kind = kind; n.token = true; n.b = b; n.e = e; n.parent = cur; cur->children.push_back(&n);
	}
	void skip() {
		if(no_ws || !ws) return;
		auto p = ws(pos, end);
		if(p != pos) { add("whitespace", pos, p); pos = p; }
	}
};
template<typename T, typename = void> struct has_ws : std::false_type {};
template<typename T> struct has_ws<T, std::void_t<decltype(T::whitespace)>> : std::true_type {};
}

class parse_tree_base {
public:
	struct kind_t { const char* s; bool tok; const char* name() const { return s; } bool is_token() const { return tok; } };
	struct lexeme_t { const char* b; const char* e; const char* begin() const { return b; } const char* end() const { return e; } };
	class node {
	public:
		const detail::node_data* d = nullptr;
		node() = default; node(const detail::node_data* d) : d(d) {}
		kind_t kind() const { return {d->kind, d->token}; }
		lexeme_t lexeme() const { return {d->b, d->e}; }
		const char* position() const { return d->b; }
		node parent() const { return node(d->parent ? d->parent : d); }
		std::vector<node> children() const { return std::vector<node>(d->children.begin(), d->children.end()); }
		bool operator==(const node& o) const { return d == o.d; }
	};
	std::deque<detail::node_data> pool; detail::node_data* root_ = nullptr;
	node root() const { return node(root_); }
	bool empty() const { return !root_; }
	parse_tree_base() = default; parse_tree_base(const parse_tree_base&) = delete;
};
template<typename R> class parse_tree : public parse_tree_base {};

namespace dsl {
using detail::context;
struct rule_base {};
template<typename T> using is_rule = std::enable_if_t<std::is_base_of<rule_base, std::decay_t<T>>::value>;

// CRTP: token rules supply kind() and match()
template<typename D> struct token : rule_base {
	constexpr token() {}
	int branch(context& c) const {
		const D& d = static_cast<const D&>(*this);
		auto p = d.match(c.pos, c.end);
		if(!p) return 0;
		if(p != c.pos) c.add(d.kind(), c.pos, p);
		c.pos = p; c.skip();
		return 1;
	}
	bool parse(context& c) const { return branch(c) == 1; }
};
template<typename D> struct cclass : token<D> {
	constexpr cclass() {}
	const char* kind() const { return "any"; }
	const char* match(const char* p, const char* e) const { return p < e && static_cast<const D&>(*this).has((unsigned char)*p) ? p + 1 : nullptr; }
};
template<typename C> struct neg_t : cclass<neg_t<C>> { C c; constexpr neg_t(C c) : c(c) {} bool has(unsigned char x) const { return !c.has(x); } };
template<typename C, typename = decltype(&C::has)> constexpr auto operator-(C c) { return neg_t<C>(c); }

namespace ascii {
#define MINI_CC(NAME, COND) struct NAME##_t : cclass<NAME##_t> { constexpr NAME##_t() {} bool has(unsigned char x) const { return COND; } }; static constexpr NAME##_t NAME{};
MINI_CC(space, x == ' ' || (x >= 9 && x <= 13))
MINI_CC(newline, x == '\n' || x == '\r')
MINI_CC(character, x < 128)
MINI_CC(control, x < 32 || x == 127)
MINI_CC(digit, x >= '0' && x <= '9')
MINI_CC(alpha, (x >= 'a' && x <= 'z') || (x >= 'A' && x <= 'Z'))
MINI_CC(alpha_underscore, (x >= 'a' && x <= 'z') || (x >= 'A' && x <= 'Z') || x == '_')
MINI_CC(alpha_digit, (x >= 'a' && x <= 'z') || (x >= 'A' && x <= 'Z') || (x >= '0' && x <= '9'))
MINI_CC(alpha_digit_underscore, (x >= 'a' && x <= 'z') || (x >= 'A' && x <= 'Z') || (x >= '0' && x <= '9') || x == '_')
#undef MINI_CC
}

struct lit_t : token<lit_t> {
	const char* s; size_t n; constexpr lit_t(const char* s, size_t n) : s(s), n(n) {}
	const char* kind() const { return "literal"; }
	const char* match(const char* p, const char* e) const { return size_t(e - p) >= n && !std::memcmp(p, s, n) ? p + n : nullptr; }
	size_t prefix(const char* p, const char* e) const { return match(p, e) ? n : 0; }
};
template<char C> struct litc_t : token<litc_t<C>> {
	constexpr litc_t() {}
	const char* kind() const { return "literal"; }
	const char* match(const char* p, const char* e) const { return p < e && *p == C ? p + 1 : nullptr; }
	size_t prefix(const char* p, const char* e) const { return match(p, e) ? 1 : 0; }
};
template<char C> static constexpr litc_t<C> lit_c{};
static constexpr litc_t<','> comma{}; static constexpr litc_t<';'> semicolon{}; static constexpr litc_t<'='> equal_sign{}; static constexpr litc_t<':'> colon{}; static constexpr litc_t<'.'> period{};

template<typename L, typename T> struct ident_t : token<ident_t<L, T>> {
	L l; T t; constexpr ident_t(L l, T t) : l(l), t(t) {}
	const char* kind() const { return "identifier"; }
	const char* match(const char* p, const char* e) const {
		if(!(p < e && l.has((unsigned char)*p))) return nullptr;
		for(++p; p < e && t.has((unsigned char)*p); ++p);
		return p;
	}
};
template<typename L, typename T> constexpr auto identifier(L l, T t) { return ident_t<L, T>(l, t); }
template<typename L> constexpr auto identifier(L l) { return ident_t<L, L>(l, l); }

template<typename I> struct kw_t : token<kw_t<I>> {
	const char* s; size_t n; I id; constexpr kw_t(const char* s, size_t n, I id) : s(s), n(n), id(id) {}
	const char* kind() const { return "literal"; }
	const char* match(const char* p, const char* e) const {
		if(size_t(e - p) < n || std::memcmp(p, s, n)) return nullptr;
		p += n;
		return p < e && id.t.has((unsigned char)*p) ? nullptr : p;
	}
	size_t prefix(const char* p, const char* e) const { return size_t(e - p) >= n && !std::memcmp(p, s, n) ? n : 0; }
};
template<typename I, size_t N> constexpr auto make_kw(const char (&s)[N], I id) { return kw_t<I>(s, N - 1, id); }
template<size_t N> constexpr auto make_lit(const char (&s)[N]) { return lit_t(s, N - 1); }

template<typename... T> struct lset_t;
template<> struct lset_t<> { constexpr lset_t() {} void best(const char*, const char*, size_t&, bool&) const {} };
template<typename H, typename... T> struct lset_t<H, T...> {
	H h; lset_t<T...> t; constexpr lset_t(H h, T... t) : h(h), t(t...) {}
	void best(const char* p, const char* e, size_t& n, bool& ok) const {
		const auto k = h.prefix(p, e);
		if(k > n) { n = k; ok = h.match(p, e); }
		t.best(p, e, n, ok);
	}
};
template<typename... T> struct litset_t : token<litset_t<T...>> {
	lset_t<T...> set; constexpr litset_t(T... t) : set(t...) {}
	const char* kind() const { return "literal"; }
	const char* match(const char* p, const char* e) const { size_t n = 0; bool ok = false; set.best(p, e, n, ok); return n && ok ? p + n : nullptr; }
};
template<typename... T> constexpr auto literal_set(T... t) { return litset_t<T...>(t...); }

struct hex { static bool has(unsigned char x) { return (x >= '0' && x <= '9') || (x >= 'a' && x <= 'f') || (x >= 'A' && x <= 'F'); } };
struct binary { static bool has(unsigned char x) { return x == '0' || x == '1'; } };
struct decimal { static bool has(unsigned char x) { return x >= '0' && x <= '9'; } };
template<typename B> struct digits_t : token<digits_t<B>> {
	constexpr digits_t() {}
	const char* kind() const { return "digits"; }
	const char* match(const char* p, const char* e) const { auto b = p; while(p < e && B::has((unsigned char)*p)) ++p; return p != b ? p : nullptr; }
};
template<typename B> static constexpr digits_t<B> digits{};

struct eof_t : token<eof_t> { constexpr eof_t() {} const char* kind() const { return "EOF"; } const char* match(const char* p, const char* e) const { return p == e ? p : nullptr; } };
static constexpr eof_t eof{};

template<typename A, typename B> struct seq_t : rule_base { A a; B b; constexpr seq_t(A a, B b) : a(a), b(b) {}
	bool parse(context& c) const { return a.parse(c) && b.parse(c); } };
template<typename A, typename B> struct br_t : rule_base { A a; B b; constexpr br_t(A a, B b) : a(a), b(b) {}
	int branch(context& c) const { int r = a.branch(c); return r == 1 ? (b.parse(c) ? 1 : 2) : r; }
	bool parse(context& c) const { return branch(c) == 1; } };
template<typename A, typename B> struct alt_t : rule_base { A a; B b; constexpr alt_t(A a, B b) : a(a), b(b) {}
	int branch(context& c) const { int r = a.branch(c); return r ? r : b.branch(c); }
	bool parse(context& c) const { return branch(c) == 1; } };
template<typename A, typename B, typename = is_rule<A>, typename = is_rule<B>> constexpr auto operator+(A a, B b) { return seq_t<A, B>(a, b); }
template<typename A, typename B, typename = is_rule<A>, typename = is_rule<B>> constexpr auto operator>>(A a, B b) { return br_t<A, B>(a, b); }
template<typename A, typename B, typename = is_rule<A>, typename = is_rule<B>> constexpr auto operator|(A a, B b) { return alt_t<A, B>(a, b); }

struct else_t : rule_base { constexpr else_t() {} int branch(context&) const { return 1; } bool parse(context&) const { return true; } };
static constexpr else_t else_{};
struct break_t : rule_base { constexpr break_t() {} int branch(context& c) const { c.brk = true; return 1; } bool parse(context& c) const { c.brk = true; return true; } };
static constexpr break_t break_{};
template<typename T> struct error_t : rule_base { constexpr error_t() {} int branch(context&) const { return 2; } bool parse(context&) const { return false; } };
template<typename T> static constexpr error_t<T> error{};

template<typename R, bool NOT> struct peek_t : rule_base { R r; constexpr peek_t(R r) : r(r) {}
	int branch(context& c) const { auto s = c; s.quiet++; const int x = r.branch(s); return (x == 1) != NOT; }
	bool parse(context& c) const { return branch(c) == 1; } };
template<typename R> constexpr auto peek(R r) { return peek_t<R, false>(r); }
template<typename R> constexpr auto peek_not(R r) { return peek_t<R, true>(r); }

template<typename R> struct loop_t : rule_base { R r; constexpr loop_t(R r) : r(r) {}
	int branch(context& c) const { return parse(c) ? 1 : 2; }
	bool parse(context& c) const { while(true) { if(!r.parse(c)) return false; if(c.brk) { c.brk = false; return true; } } } };
template<typename R> constexpr auto loop(R r) { return loop_t<R>(r); }
template<typename R, bool LOOP> struct if_t : rule_base { R r; constexpr if_t(R r) : r(r) {}
	bool parse(context& c) const { while(true) { const int x = r.branch(c); if(x == 2) return false; if(!x || !LOOP) return true; } } };
template<typename R> constexpr auto if_(R r) { return if_t<R, false>(r); }
template<typename R> constexpr auto opt(R r) { return if_t<R, false>(r); }
template<typename R> constexpr auto while_(R r) { return if_t<R, true>(r); }

template<typename R, bool TR> struct sep_t { R r; constexpr sep_t(R r) : r(r) {} static constexpr bool trailing = TR; };
template<typename R> constexpr auto sep(R r) { return sep_t<R, false>(r); }
template<typename R> constexpr auto trailing_sep(R r) { return sep_t<R, true>(r); }

template<char O, char C, typename R> struct br_rule : rule_base { R r; constexpr br_rule(R r) : r(r) {}
	int branch(context& c) const { if(!lit_c<O>.branch(c)) return 0; return r.parse(c) && lit_c<C>.parse(c) ? 1 : 2; }
	bool parse(context& c) const { return branch(c) == 1; } };
template<char O, char C, bool OPT, typename R, typename S> struct br_list : rule_base { R r; S s; constexpr br_list(R r, S s) : r(r), s(s) {}
	int branch(context& c) const {
		if(!lit_c<O>.branch(c)) return 0;
		if(OPT && lit_c<C>.branch(c)) return 1;
		while(true) {
			if(!r.parse(c)) return 2;
			const int x = s.r.branch(c);
			if(x == 2) return 2;
			if(!x) return lit_c<C>.parse(c) ? 1 : 2;
			if(S::trailing && lit_c<C>.branch(c)) return 1;
		}
	}
	bool parse(context& c) const { return branch(c) == 1; } };
template<char O, char C> struct brackets_t {
	constexpr brackets_t() {}
	template<typename R> constexpr auto operator()(R r) const { return br_rule<O, C, R>(r); }
	template<typename R, typename S> constexpr auto list(R r, S s) const { return br_list<O, C, false, R, S>(r, s); }
	template<typename R, typename S> constexpr auto opt_list(R r, S s) const { return br_list<O, C, true, R, S>(r, s); }
};
static constexpr brackets_t<'(', ')'> parenthesized{}; static constexpr brackets_t<'[', ']'> square_bracketed{}; static constexpr brackets_t<'{', '}'> curly_bracketed{};

struct escape_t {}; static constexpr escape_t backslash_escape{};
template<typename C> struct quoted_t : rule_base { C cc; constexpr quoted_t(C cc) : cc(cc) {}
	int branch(context& c) const {
		if(!(c.pos < c.end && *c.pos == '"')) return 0;
		c.add("literal", c.pos, c.pos + 1); c.pos++;
		auto p = c.pos;
		while(p < c.end && *p != '"') {
			if(*p == '\\' || !cc.has((unsigned char)*p)) return 2;   // no escape sequence is defined
			++p;
		}
		if(p == c.end) return 2;
		if(p != c.pos) c.add("any", c.pos, p);
		c.add("literal", p, p + 1); c.pos = p + 1; c.skip();
		return 1;
	}
	bool parse(context& c) const { return branch(c) == 1; } };
template<typename C> constexpr auto quoted(C cc, escape_t) { return quoted_t<C>(cc); }

template<typename R> const char* run_ws(const R& r, const char* p, const char* e) {
	context c{nullptr, nullptr, p, e, p}; c.quiet = 1;
	while(true) { auto b = c.pos; if(r.branch(c) != 1 || c.pos == b) return c.pos == b ? b : c.pos; }
}
template<typename P> struct ws_of { static const char* skip(const char* p, const char* e) { return run_ws(P::whitespace, p, e); } };
template<typename R> constexpr auto whitespace(R r) { return if_t<R, true>(r); }

template<typename P> struct inline_t : rule_base { constexpr inline_t() {} int branch(context& c) const { return P::rule.branch(c); } bool parse(context& c) const { return P::rule.parse(c); } };
template<typename P> static constexpr inline_t<P> inline_{};

template<typename P> struct prod_t : rule_base {
	constexpr prod_t() {}
	template<typename F> int run(context& c, F f) const {
		const bool tok = std::is_base_of<token_production, P>::value;
		const bool transparent = std::is_base_of<transparent_production, P>::value;
		auto cur = c.cur; auto pos = c.pos; auto ws = c.ws; const auto brk = c.brk; c.brk = false;
		if(detail::has_ws<P>::value) set_ws(c, detail::has_ws<P>{});
		if(!transparent && !c.quiet) {
			c.pool->emplace_back(); auto& n = c.pool->back(); n.kind = P::name; n.b = n.e = c.pos; n.parent = cur; c.cur = &n;
		}
		c.no_ws += tok;
		const int r = f();
		c.no_ws -= tok;
		auto self = c.cur;
		c.cur = cur; c.ws = ws; c.brk = brk;
		if(r == 0) { c.pos = pos; return 0; }
		if(!transparent && !c.quiet) { self->e = c.pos; cur->children.push_back(self); }
		if(r == 1 && tok) c.skip();
		return r;
	}
	static void set_ws(context& c, std::true_type) { c.ws = &ws_of<P>::skip; }
	static void set_ws(context&, std::false_type) {}
	template<typename R> static auto do_branch(const R& r, context& c, int) -> decltype(r.branch(c)) { return r.branch(c); }
	template<typename R> static int do_branch(const R& r, context& c, long) { return r.parse(c) ? 1 : 2; }
	int branch(context& c) const { return run(c, [&]() { return do_branch(P::rule, c, 0); }); }
	bool parse(context& c) const { return run(c, [&]() { return P::rule.parse(c) ? 1 : 2; }) == 1; }
};
template<typename P> static constexpr prod_t<P> p{};
template<typename P> static constexpr prod_t<P> recurse{};
} // dsl

struct tree_result { bool ok; bool is_success() const { return ok; } explicit operator bool() const { return ok; } };
struct location_t { size_t line = 1, col = 1; size_t line_nr() const { return line; } size_t column_nr() const { return col; } };
template<typename I> location_t get_input_location(const I& in, const char* pos) {
	location_t l;
	for(auto p = in.begin(); p < pos && p < in.end(); ++p) { if(*p == '\n') { l.line++; l.col = 1; } else { l.col++; } }
	return l;
}
template<typename P, typename T, typename I, typename E> tree_result parse_as_tree(T& tree, const I& in, const E&) {
	tree.pool.clear(); tree.root_ = nullptr;
	detail::context c{&tree.pool, nullptr, in.begin(), in.end(), in.begin()};
	tree.pool.emplace_back(); auto& r = tree.pool.back(); r.kind = P::name; r.b = in.begin(); c.cur = &r; tree.root_ = &r;
	dsl::prod_t<P>::set_ws(c, detail::has_ws<P>{});
	c.skip();
	const bool ok = P::rule.parse(c);
	r.e = c.pos;
	return {ok};
}
} // lexy
namespace lexy_ext { struct report_error_t {}; static constexpr report_error_t report_error{}; }
#define LEXY_LIT(S) ::lexy::dsl::make_lit(S)
#define LEXY_KEYWORD(S, ID) ::lexy::dsl::make_kw(S, ID)
