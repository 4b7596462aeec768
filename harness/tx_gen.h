#pragma once
// transactions, blocks and their parts: generators, and the canonical byte form every hash is taken of (written from its definition)
#include "pbt.h"
#include "ref_crypto.h"
#include <vnx/vnx.h>
#include <mmx/Transaction.hxx>
#include <mmx/Block.hxx>
#include <mmx/ChainParams.hxx>
#include <mmx/ProofOfSpaceOG.hxx>
#include <mmx/ProofOfSpaceNFT.hxx>
#include <mmx/ProofOfTime.hxx>
#include <mmx/ValidatorVote.hxx>
#include <mmx/VDF_Point.hxx>
#include <mmx/contract/Binary.hxx>
#include <mmx/contract/Data.hxx>
#include <mmx/contract/Executable.hxx>
#include <mmx/contract/MultiSig.hxx>
#include <mmx/contract/PubKey.hxx>
#include <mmx/contract/WebData.hxx>
#include <mmx/operation/Deposit.hxx>
#include <mmx/solution/MultiSig.hxx>
#include <mmx/solution/PubKey.hxx>
#include <mmx/skey_t.hpp>
#include <mmx/secp256k1.hpp>
#include <mmx/utils.h>
#include <boost/multiprecision/cpp_int.hpp>

using namespace mmx;
using pbt::Src; using pbt::Ctx; using pbt::show;
typedef std::string str;
typedef uint64_t u64;
typedef boost::multiprecision::cpp_int Z;
namespace op = mmx::operation; namespace sol = mmx::solution; namespace ct = mmx::contract;

static str sha256(const str& s) { const auto h = ref::sha256(ref::str(s)); return str(h.begin(), h.end()); }
template<size_t N> static str raw(const bytes_t<N>& b) { return str((const char*)b.data(), N); }

// ---- canonical bytes
struct W {
	str s; int version;
	explicit W(int version) : version(version) {}
	W& t(const char* p) { s += p; return *this; }
	W& u(u64 v) { for(int i = 0; i < 8; ++i) s.push_back(char(v >> (8 * i))); return *this; }
	W& b(bool v) { s.push_back(v ? 1 : 0); return *this; }
	W& st(const str& v) { t("string<>"); u(v.size()); s += v; return *this; }
	W& by(const str& v) { t("bytes<>"); u(v.size()); s += v; return *this; }
	template<size_t N> W& by(const bytes_t<N>& v) { return by(raw(v)); }
	W& f(const char* name) { t("field<>"); return st(name); }
	W& n128(const uint128& v) { u(v.lower()); return u(v.upper()); }
	template<typename T, typename F> W& opt(const T& v, F fn) { t("optional<>"); b(bool(v)); if(v) fn(*v); return *this; }
	template<typename T, typename F> W& vec(const T& v, F fn) { t("vector<>"); u(v.size()); for(const auto& x : v) fn(x); return *this; }
	template<typename T, typename F> W& map(const T& v, F fn) { t("vector<>"); u(v.size()); for(const auto& x : v) { t("pair<>"); fn(x); } return *this; }
	W& var(const vnx::Variant& v) {
		if(version >= 1 && !is_json(v)) t("variant<>");
		if(v.is_null()) return t("NULL");
		if(v.is_bool()) { if(version >= 1) t("<bool>"); return b(v.to<bool>()); }
		if(v.is_ulong()) { if(version >= 1) t("<u64>"); return u(v.to<u64>()); }
		if(v.is_long()) { if(version >= 1) t("<i64>"); return u(u64(v.to<int64_t>())); }
		if(v.is_string()) return st(v.to<str>());
		if(v.is_array()) return vec(v.to<std::vector<vnx::Variant>>(), [&](const vnx::Variant& x) { var(x); });
		if(v.is_object()) return object(v.to_object());
		return by(str((const char*)v.data.data(), v.data.size()));
	}
	W& object(const vnx::Object& o) { t("object<>"); return map(o.field, [&](const std::pair<const str, vnx::Variant>& e) { st(e.first); var(e.second); }); }
	W& io(const txio_t& x) { by(x.address); by(x.contract); n128(x.amount); return opt(x.memo, [&](const str& m) { st(m); }); }
	W& in(const txin_t& x, bool full) { t("txin_t<>"); io(x); if(full) { u(x.solution); u(x.flags); } return *this; }
	W& out(const txout_t& x) { t("txout_t<>"); return io(x); }
	W& type(u64 id) { return u(id); }
	W& method(const ct::method_t& m) {
		type(ct::method_t::VNX_TYPE_ID);
		f("name").st(m.name); f("info").st(m.info); f("is_init").b(m.is_init); f("is_const").b(m.is_const); f("is_public").b(m.is_public); f("is_payable").b(m.is_payable);
		f("entry_point").u(m.entry_point); return f("args").vec(m.args, [&](const str& a) { st(a); });
	}
	str hash() const { return sha256(s); }
};
static const str ZERO(32, 0);
#define S_(v) [&](const str& x) { v.st(x); }

static str ref_error(const exec_error_t& e) {
	W w(0); w.type(exec_error_t::VNX_TYPE_ID).f("code").u(e.code).f("address").u(e.address).f("operation").u(e.operation).f("line").opt(e.line, [&](uint32_t l) { w.u(l); });
	return w.f("message").st(e.message).hash();
}
static str ref_result(const exec_result_t& r) {
	W w(0); w.type(exec_result_t::VNX_TYPE_ID).f("did_fail").b(r.did_fail).f("total_cost").u(r.total_cost).f("total_fee").u(r.total_fee);
	w.f("inputs").vec(r.inputs, [&](const txin_t& x) { w.in(x, false); }); w.f("outputs").vec(r.outputs, [&](const txout_t& x) { w.out(x); });
	return w.f("error").by(r.error ? ref_error(*r.error) : ZERO).hash();
}
static str ref_solution(std::shared_ptr<const Solution> x) {
	if(!x) return ZERO;
	W w(0);
	if(auto p = std::dynamic_pointer_cast<const sol::PubKey>(x)) return w.type(sol::PubKey::VNX_TYPE_ID).f("version").u(p->version).f("pubkey").by(p->pubkey).f("signature").by(p->signature).hash();
	auto p = std::dynamic_pointer_cast<const sol::MultiSig>(x);
	w.type(sol::MultiSig::VNX_TYPE_ID).f("version").u(p->version).f("solutions").u(p->solutions.size());
	for(const auto& e : p->solutions) w.t("pair<>").by(e.first).by(ref_solution(e.second));
	return w.f("num_required").u(p->num_required).hash();
}
static str ref_operation(std::shared_ptr<const Operation> x, bool full, int version) {
	if(!x) return ZERO;
	W w(version);
	auto e = std::dynamic_pointer_cast<const op::Execute>(x); auto d = std::dynamic_pointer_cast<const op::Deposit>(x);
	w.type(d ? op::Deposit::VNX_TYPE_ID : op::Execute::VNX_TYPE_ID).f("version").u(e->version).f("address").by(e->address).f("method").st(e->method);
	w.f("args").vec(e->args, [&](const vnx::Variant& a) { w.var(a); }); w.f("user").opt(e->user, [&](const addr_t& a) { w.by(a); });
	if(d) w.f("currency").by(d->currency).f("amount").n128(d->amount);
	if(full) w.f("solution").u(e->solution);
	return w.hash();
}
static str ref_contract(std::shared_ptr<const Contract> x, int version) {
	if(!x) return ZERO;
	W w(version);
	if(auto p = std::dynamic_pointer_cast<const ct::Binary>(x)) {
		w.type(ct::Binary::VNX_TYPE_ID).f("version").u(p->version).f("name").st(p->name);
		w.f("fields").map(p->fields, [&](const std::pair<const str, uint32_t>& e) { w.st(e.first).u(e.second); });
		w.f("methods").map(p->methods, [&](const std::pair<const str, ct::method_t>& e) { w.st(e.first).method(e.second); });
		w.f("constant").by(str(p->constant.begin(), p->constant.end())).f("binary").by(str(p->binary.begin(), p->binary.end()));
		w.f("line_info").map(p->line_info, [&](const std::pair<const uint32_t, uint32_t>& e) { w.u(e.first).u(e.second); });
		w.f("source").st(p->source).f("compiler").st(p->compiler).f("build_flags").t("compile_flags_t<>");
		return w.f("verbose").u(int64_t(p->build_flags.verbose)).f("opt_level").u(int64_t(p->build_flags.opt_level)).f("catch_overflow").b(p->build_flags.catch_overflow).hash();
	}
	if(auto p = std::dynamic_pointer_cast<const ct::Data>(x)) return w.type(ct::Data::VNX_TYPE_ID).f("version").u(p->version).f("value").var(p->value).hash();
	if(auto p = std::dynamic_pointer_cast<const ct::MultiSig>(x)) { w.type(ct::MultiSig::VNX_TYPE_ID).f("version").u(p->version).f("num_required").u(p->num_required); return w.f("owners").vec(p->owners, [&](const addr_t& a) { w.by(a); }).hash(); }
	if(auto p = std::dynamic_pointer_cast<const ct::PubKey>(x)) return w.type(ct::PubKey::VNX_TYPE_ID).f("version").u(p->version).f("address").by(p->address).hash();
	if(auto p = std::dynamic_pointer_cast<const ct::WebData>(x)) return w.type(ct::WebData::VNX_TYPE_ID).f("version").u(p->version).f("mime_type").st(p->mime_type).f("payload").by(str((const char*)p->payload.data(), p->payload.size())).hash();
	auto tb = std::dynamic_pointer_cast<const ct::TokenBase>(x); auto p = std::dynamic_pointer_cast<const ct::Executable>(x);
	w.type(p ? ct::Executable::VNX_TYPE_ID : ct::TokenBase::VNX_TYPE_ID).f("version").u(tb->version).f("name").st(tb->name).f("symbol").st(tb->symbol).f("decimals").u(int64_t(tb->decimals)).f("meta_data").var(tb->meta_data);
	if(p) {
		w.f("binary").by(p->binary).f("init_method").st(p->init_method).f("init_args").vec(p->init_args, [&](const vnx::Variant& a) { w.var(a); });
		w.f("depends").map(p->depends, [&](const std::pair<const str, addr_t>& e) { w.st(e.first).by(e.second); });
	}
	return w.hash();
}
static str ref_tx_bytes(const Transaction& x, bool full) {
	W w(x.version);
	w.type(Transaction::VNX_TYPE_ID).f("version").u(x.version).f("expires").u(x.expires).f("fee_ratio").u(x.fee_ratio).f("max_fee_amount").u(x.max_fee_amount).f("note").u(uint32_t(x.note)).f("nonce").u(x.nonce).f("network").st(x.network);
	w.f("sender").opt(x.sender, [&](const addr_t& a) { w.by(a); });
	w.f("inputs").vec(x.inputs, [&](const txin_t& i) { w.in(i, full); }); w.f("outputs").vec(x.outputs, [&](const txout_t& o) { w.out(o); });
	w.f("execute").u(x.execute.size()); for(const auto& o : x.execute) w.by(ref_operation(o, full, x.version));
	w.f("deploy").by(ref_contract(x.deploy, x.version));
	if(full) {
		w.f("static_cost").u(x.static_cost).f("solutions").u(x.solutions.size()); for(const auto& o : x.solutions) w.by(ref_solution(o));
		w.f("exec_result").by(x.exec_result ? ref_result(*x.exec_result) : ZERO);
	}
	return w.s;
}
static str ref_tx(const Transaction& x, bool full) { return sha256(ref_tx_bytes(x, full)); }
static str ref_proof(std::shared_ptr<const ProofOfSpace> x) {
	auto og = std::dynamic_pointer_cast<const ProofOfSpaceOG>(x); auto nft = std::dynamic_pointer_cast<const ProofOfSpaceNFT>(x);
	W w(0); w.type(og ? ProofOfSpaceOG::VNX_TYPE_ID : ProofOfSpaceNFT::VNX_TYPE_ID).f("score").u(x->score).f("plot_id").by(x->plot_id).f("challenge").by(x->challenge).f("difficulty").u(x->difficulty).f("farmer_key").by(x->farmer_key);
	w.f("ksize").u(og ? og->ksize : nft->ksize).f("seed").by(og ? og->seed : nft->seed).f("proof_xs").vec(og ? og->proof_xs : nft->proof_xs, [&](uint32_t v) { w.u(v); });
	if(nft) w.f("contract").by(nft->contract);
	return w.hash();
}
static str ref_header(const BlockHeader& x, const ChainParams& p) {
	W w(0); auto oa = [&](const char* n, const vnx::optional<addr_t>& a) { w.f(n).opt(a, [&](const addr_t& v) { w.by(v); }); };
	w.type(x.get_type_hash()).f("version").u(x.version).f("support_flags").u(x.support_flags).f("prev").by(x.prev).f("height").u(x.height).f("vdf_height").u(x.vdf_height).f("nonce").u(x.nonce).f("time_stamp").u(u64(x.time_stamp));
	w.f("time_diff").u(x.time_diff).f("space_diff").u(x.space_diff).f("weight").n128(x.weight).f("total_weight").n128(x.total_weight).f("vdf_count").u(x.vdf_count).f("vdf_iters").u(x.vdf_iters).f("vdf_output").by(x.vdf_output);
	w.f("vdf_reward_addr").vec(x.vdf_reward_addr, [&](const addr_t& a) { w.by(a); }); oa("vdf_reward_payout", x.vdf_reward_payout);
	w.f("proof").vec(x.proof, [&](const std::shared_ptr<const ProofOfSpace>& q) { w.by(ref_proof(q)); }); w.f("proof_hash").by(x.proof_hash);
	if(x.height >= p.hardfork2_height) w.f("proof_chain").by(x.proof_chain);
	w.f("challenge").by(x.challenge).f("is_space_fork").b(x.is_space_fork).f("space_fork_len").u(x.space_fork_len).f("space_fork_proofs").u(x.space_fork_proofs).f("reward_amount").u(x.reward_amount);
	oa("reward_addr", x.reward_addr); oa("reward_contract", x.reward_contract); oa("reward_account", x.reward_account);
	w.f("reward_vote").u(u64(int64_t(x.reward_vote))).f("reward_vote_sum").u(u64(int64_t(x.reward_vote_sum))).f("reward_vote_count").u(x.reward_vote_count).f("base_reward").u(x.base_reward).f("project_addr").by(x.project_addr);
	return w.f("static_cost").u(x.static_cost).f("total_cost").u(x.total_cost).f("tx_count").u(x.tx_count).f("tx_fees").u(x.tx_fees).f("txfee_buffer").u(x.txfee_buffer).f("tx_hash").by(x.tx_hash).hash();
}
static str ref_pot(const ProofOfTime& x) {
	W w(0); w.type(ProofOfTime::VNX_TYPE_ID).f("version").u(x.version).f("vdf_height").u(x.vdf_height).f("start").u(x.start).f("num_iters").u(x.num_iters).f("segment_size").u(x.segment_size).f("input").by(x.input).f("prev").by(x.prev).f("reward_addr").by(x.reward_addr);
	return w.f("segments").vec(x.segments, [&](const hash_t& h) { w.by(h); }).hash();
}

// ---- generators
static str gen_bytes(Src& s, size_t n) { str o; if(s.chance(70)) { o.assign(n, char(s.draw(4))); if(n) o[n - 1] = char(s.draw(256)); } else for(size_t i = 0; i < n; ++i) o.push_back(char(s.draw(256))); return o; }
static addr_t gen_addr(Src& s) { return s.chance(15) ? addr_t() : addr_t::from_bytes(gen_bytes(s, 32).data()); }
static hash_t gen_hash(Src& s) { return s.chance(15) ? hash_t() : hash_t::from_bytes(gen_bytes(s, 32).data()); }
static pubkey_t gen_pubkey(Src& s) { pubkey_t k; const str b = gen_bytes(s, k.size()); memcpy(k.data(), b.data(), b.size()); return k; }
static signature_t gen_sig(Src& s) { signature_t k; const str b = gen_bytes(s, k.size()); memcpy(k.data(), b.data(), b.size()); return k; }
static uint128 gen_amount(Src& s) { return s.chance(80) ? uint128(s.u64()) : uint128(uint128_t(s.u64(), s.u64())); }
static vnx::optional<addr_t> gen_oaddr(Src& s) { if(s.flip()) return gen_addr(s); return nullptr; }
static str gen_text(Src& s, size_t max = 12) { return s.text(s.size(max), "ab_{\" \\:1,\n"); }
static vnx::Variant gen_json(Src& s, int depth = 3) {
	switch(s.weighted({2, 2, 4, 3, 4, depth ? 3u : 0u, depth ? 3u : 0u})) {
		case 0: return vnx::Variant();
		case 1: return vnx::Variant(s.flip());
		case 2: return vnx::Variant(s.u64());
		case 3: return vnx::Variant(-int64_t(1 + s.draw(1ull << (1 + s.draw(62)))));
		case 4: return vnx::Variant(gen_text(s));
		case 5: { std::vector<vnx::Variant> v; const auto n = s.draw(4); for(u64 i = 0; i < n; ++i) v.push_back(gen_json(s, depth - 1)); return vnx::Variant(v); }
		default: { vnx::Object o; const auto n = s.draw(4); for(u64 i = 0; i < n; ++i) o[s.text(s.draw(3), "abk")] = gen_json(s, depth - 1); return vnx::Variant(o); }
	}
}
static vnx::Variant gen_not_json(Src& s) {
	switch(s.draw(5)) {
		case 0: return vnx::Variant(double(s.draw(1000)) + 0.5);
		case 1: return vnx::Variant(std::vector<uint32_t>{1, 2});
		case 2: return vnx::Variant(gen_addr(s));
		case 3: { std::vector<vnx::Variant> v; v.emplace_back(u64(1)); v.emplace_back(1.5); return vnx::Variant(v); }
		default: { vnx::Object o; o["a"] = vnx::Variant(2.5); return vnx::Variant(std::vector<vnx::Variant>{vnx::Variant(o)}); }
	}
}
static vnx::optional<str> gen_memo(Src& s, size_t max = 64) { if(s.chance(40)) return s.flip() ? str(s.of({0, 1, 31, 32, 33, 63, 64}), 'm') : gen_text(s, max); return nullptr; }
static txin_t gen_in(Src& s) { txin_t x; x.address = gen_addr(s); x.contract = gen_addr(s); x.amount = gen_amount(s); x.memo = gen_memo(s); if(s.flip()) x.solution = s.draw(4); if(s.chance(20)) x.flags = s.draw(256); return x; }
static txout_t gen_out(Src& s) { txout_t x; x.address = gen_addr(s); x.contract = gen_addr(s); x.amount = gen_amount(s); x.memo = gen_memo(s); return x; }
static std::shared_ptr<const Operation> gen_op(Src& s) {
	std::shared_ptr<op::Execute> e;
	if(s.chance(40)) { auto d = op::Deposit::create(); d->currency = gen_addr(s); d->amount = gen_amount(s); if(d->amount == uint128()) d->amount = 1; e = d; } else e = op::Execute::create();
	e->address = gen_addr(s); e->method = "m" + gen_text(s); e->user = gen_oaddr(s); if(s.flip()) e->solution = s.draw(4);
	const auto n = s.draw(3); for(u64 i = 0; i < n; ++i) e->args.push_back(gen_json(s));
	return e;
}
static std::shared_ptr<const Solution> gen_sol(Src& s, int depth = 1) {
	if(depth && s.chance(30)) {
		auto m = sol::MultiSig::create(); m->num_required = s.draw(4); const auto n = s.draw(4);
		for(u64 i = 0; i < n; ++i) m->solutions[gen_addr(s)] = gen_sol(s, 0);
		return m;
	}
	auto p = sol::PubKey::create(); p->pubkey = gen_pubkey(s); p->signature = gen_sig(s); return p;
}
static std::shared_ptr<const Contract> gen_contract(Src& s) {
	switch(s.draw(7)) {
		case 0: {
			auto b = ct::Binary::create(); b->name = gen_text(s);
			for(u64 n = s.draw(3); n; --n) b->fields[gen_text(s, 4)] = s.u32();
			for(u64 n = s.draw(3); n; --n) {
				ct::method_t m; m.name = gen_text(s, 5); m.info = gen_text(s); m.entry_point = s.u32(); for(u64 k = s.draw(3); k; --k) m.args.push_back(gen_text(s, 4));
				switch(s.draw(5)) { case 0: m.is_init = true; break; case 1: m.is_const = true; m.is_public = s.flip(); break; case 2: m.is_payable = true; m.is_public = s.flip(); break; case 3: m.is_public = true; break; default: break; }
				b->methods[m.name] = m;
			}
			b->constant = s.bytes(s.size(20)); b->binary = s.bytes(s.size(40)); for(u64 n = s.draw(3); n; --n) b->line_info[s.u32()] = s.u32();
			b->source = gen_text(s, 40); b->compiler = gen_text(s); b->build_flags.verbose = int(s.draw(3)); b->build_flags.opt_level = int(s.draw(5)) - 1; b->build_flags.catch_overflow = s.flip();
			return b;
		}
		case 1: { auto d = ct::Data::create(); d->value = gen_json(s); return d; }
		case 2: { auto m = ct::MultiSig::create(); for(u64 n = 1 + s.draw(4); n; --n) m->owners.insert(gen_addr(s)); m->num_required = 1 + s.draw(m->owners.size()); return m; }
		case 3: { auto p = ct::PubKey::create(); p->address = gen_addr(s); if(p->address == addr_t()) p->address[0] = 1; return p; }
		case 4: { auto w = ct::WebData::create(); w->mime_type = gen_text(s); { const str d = gen_bytes(s, s.size(50)); w->payload.assign(d.begin(), d.end()); } return w; }
		case 5: { auto t = ct::TokenBase::create(); t->name = gen_text(s); t->symbol = s.text(s.draw(7), "AB"); t->decimals = int(s.draw(19)); t->meta_data = gen_json(s); return t; }
		default: {
			auto t = ct::Executable::create(); t->name = gen_text(s); t->symbol = s.text(s.draw(7), "AB"); t->decimals = int(s.draw(19)); t->meta_data = gen_json(s);
			t->binary = gen_addr(s); if(t->binary == addr_t()) t->binary[3] = 1; if(s.flip()) t->init_method = gen_text(s);
			for(u64 n = s.draw(3); n; --n) t->init_args.push_back(gen_json(s)); for(u64 n = s.draw(3); n; --n) t->depends[gen_text(s, 5)] = gen_addr(s);
			return t;
		}
	}
}
static exec_result_t gen_result(Src& s) {
	exec_result_t r; r.did_fail = s.flip(); r.total_cost = s.u32(); r.total_fee = s.u32();
	for(u64 n = s.draw(3); n; --n) r.inputs.push_back(gen_in(s)); for(u64 n = s.draw(3); n; --n) r.outputs.push_back(gen_out(s));
	if(s.flip()) { exec_error_t e; e.code = s.u32(); e.address = s.u32(); e.operation = s.u32(); if(s.flip()) e.line = s.u32(); e.message = s.flip() ? gen_text(s, 40) : str(s.of({159, 160}), 'x'); r.error = e; }
	return r;
}
// free-form transaction (valid parts, no consistency between them)
static std::shared_ptr<Transaction> gen_tx(Src& s) {
	auto tx = Transaction::create();
	tx->version = s.draw(2); if(s.flip()) tx->expires = s.u32(); tx->fee_ratio = 1024 + s.draw(5000); tx->static_cost = s.u32(); tx->max_fee_amount = s.u32(); tx->note = tx_note_e(tx_note_e::enum_t(s.of({0u, uint32_t(tx_note_e::TRANSFER), uint32_t(tx_note_e::DEPLOY), 7u})));
	tx->nonce = s.u64(); tx->network = s.flip() ? "mainnet" : gen_text(s); tx->sender = gen_oaddr(s);
	for(u64 n = s.draw(4); n; --n) tx->inputs.push_back(gen_in(s)); for(u64 n = s.draw(4); n; --n) tx->outputs.push_back(gen_out(s));
	for(u64 n = s.draw(3); n; --n) tx->execute.push_back(gen_op(s)); for(u64 n = s.draw(3); n; --n) tx->solutions.push_back(gen_sol(s));
	if(s.chance(40)) tx->deploy = gen_contract(s); if(s.flip()) tx->exec_result = gen_result(s);
	return tx;
}
static std::shared_ptr<ProofOfSpace> gen_proof(Src& s) {
	auto fill = [&](auto p) { p->score = s.draw(65536); p->plot_id = gen_hash(s); p->challenge = gen_hash(s); p->difficulty = s.u64(); p->farmer_key = gen_pubkey(s); p->ksize = 1 + s.draw(255); p->seed = gen_hash(s); for(u64 n = s.size(256); n; --n) p->proof_xs.push_back(s.u32()); return p; };
	if(s.flip()) return fill(ProofOfSpaceOG::create());
	auto p = fill(ProofOfSpaceNFT::create()); p->contract = gen_addr(s); return p;
}
static void gen_header(Src& s, BlockHeader& x) {
	x.support_flags = s.draw(4); x.prev = gen_hash(s); x.height = s.flip() ? s.draw(3) : s.u32(); x.vdf_height = s.u32(); x.nonce = s.u64(); x.time_stamp = int64_t(s.u64()); x.time_diff = s.u64(); x.space_diff = s.u64(); x.weight = gen_amount(s); x.total_weight = gen_amount(s);
	x.vdf_count = 1 + s.draw(4); x.vdf_iters = s.u64(); x.vdf_output = gen_hash(s); for(u64 i = 0; i < x.vdf_count; ++i) x.vdf_reward_addr.push_back(gen_addr(s)); x.vdf_reward_payout = gen_oaddr(s);
	for(u64 n = 1 + s.draw(3); n; --n) x.proof.push_back(gen_proof(s));
	x.proof_hash = gen_hash(s); x.proof_chain = gen_hash(s); x.challenge = gen_hash(s); x.is_space_fork = s.flip(); x.space_fork_len = s.u32(); x.space_fork_proofs = s.u32(); x.reward_amount = s.u64(); x.reward_addr = gen_oaddr(s); if(!x.reward_addr) x.reward_amount = 0; x.reward_contract = gen_oaddr(s); x.reward_account = gen_oaddr(s);
	x.reward_vote = int8_t(int(s.draw(3)) - 1); x.reward_vote_sum = int(s.draw(2000)) - 1000; x.reward_vote_count = s.u32(); x.base_reward = s.u64(); x.project_addr = gen_addr(s); x.static_cost = s.u64(); x.total_cost = s.u64(); x.tx_count = s.u32(); x.tx_fees = s.u64(); x.txfee_buffer = s.u64(); x.tx_hash = gen_hash(s);
	x.farmer_sig = gen_sig(s);
}
