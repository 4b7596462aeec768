// C06 consensus arithmetic, C07 amounts and prices
#include "pbt.h"
#include "ref_crypto.h"

#include <mmx/utils.h>
#include <mmx/fixed128.hpp>
#include <mmx/uint128.hpp>
#include <mmx/BlockHeader.hxx>
#include <mmx/ProofOfSpaceOG.hxx>
#include <mmx/exception.h>

#include <vnx/vnx.h>
#include <boost/multiprecision/cpp_int.hpp>

using namespace mmx;
using pbt::Src; using pbt::Ctx; using pbt::show;
typedef boost::multiprecision::cpp_int Z;

static Z big(const uint128_t& v) { return (Z(v.upper()) << 64) + Z(v.lower()); }
static uint128 small(const Z& v) { return uint128(uint128_t(uint64_t((v >> 64) & Z(~0ull)), uint64_t(v & Z(~0ull)))); }
static const Z TWO64 = Z(1) << 64, TWO128 = Z(1) << 128;
static Z pow10(int n) { Z r = 1; while(n-- > 0) r *= 10; return r; }

typedef std::vector<uint8_t> bytes;
static bytes cat(const std::string& a, const hash_t& b) { bytes o(a.begin(), a.end()); const auto v = b.to_vector(); o.insert(o.end(), v.begin(), v.end()); return o; }
static bytes cat(bytes a, const hash_t& b) { const auto v = b.to_vector(); a.insert(a.end(), v.begin(), v.end()); return a; }
static hash_t H(const bytes& b) { return hash_t::from_bytes(ref::sha256(b)); }
static Z big(const hash_t& h) { Z r = 0; const auto v = h.to_vector(); for(size_t i = v.size(); i > 0; --i) r = (r << 8) + v[i - 1]; return r; }	// little endian

static std::shared_ptr<ChainParams> gen_params(Src& s, Ctx& c)
{
	auto p = ChainParams::create();		// mainnet
	p->plot_filter = 4; p->post_filter = 10; p->min_ksize = 29; p->infuse_delay = 1; p->challenge_delay = 6; p->challenge_interval = 256;
	p->max_space_fork_len = 8; p->avg_proof_count = 4; p->max_proof_count = 20; p->vdf_segment_size = 250000;
	p->time_diff_divider = 100; p->time_diff_constant = 1000000; p->space_diff_constant = 100000000000ull; p->reward_adjust_div = 100;
	p->reward_adjust_interval = 8640; p->fixed_project_reward = 50000; p->project_ratio.value = 1; p->project_ratio.inverse = 100;
	p->hardfork1_height = 1000000; p->hardfork2_height = 5050000;
	if(s.chance(30)) {
		c.label("other params");
		p->plot_filter = s.range(1, 12); p->post_filter = s.range(1, 16); p->challenge_interval = s.range(2, 600); p->max_space_fork_len = s.range(1, 16);
		p->avg_proof_count = s.range(1, 10); p->time_diff_divider = s.range(1, 2000); p->time_diff_constant = s.range(1, 4000000);
		p->space_diff_constant = s.range(1, 1000000000000ull); p->reward_adjust_div = s.range(1, 1000); p->reward_adjust_tick = s.range(1, 100000);
		p->reward_adjust_interval = s.range(2, 20000); p->fixed_project_reward = s.range(0, 1000000);
		p->project_ratio.inverse = s.range(1, 1000); p->project_ratio.value = s.range(0, std::min<uint32_t>(p->project_ratio.inverse, 200));
		p->max_diff_adjust = s.range(1, 20); p->hardfork2_height = s.range(0, 100000); p->block_interval_ms = s.range(1, 60000);
	}
	return p;
}
static hash_t gen_hash(Src& s) {
	hash_t h = hash_t::from_bytes(s.bytes(32));
	if(s.chance(40)) {		// close to the filter boundaries
		const int n = s.range(0, 5);
		for(int i = 0; i < n; ++i) h.bytes[31 - i] = 0;
		if(n) h.bytes[31 - n] = s.of<uint8_t>({0, 1, 2, 0x0f, 0x10, 0x7f, 0x80, 0xff});
	}
	return h;
}
static uint64_t gen_bits(Src& s, int bits) { return s.u64() >> (64 - bits); }

PROPERTY(space_and_time) {
	const auto p = gen_params(s, c);
	const auto what = s.draw(8);
	switch(what) {
		case 0: {
			const uint64_t sd = s.u64();
			const Z ideal = Z(sd) * p->space_diff_constant * p->avg_proof_count * 2;
			NOTE("calc_total_netspace(" << sd << ")");
			pbt::check_eq(big(calc_total_netspace(p, sd)), Z((ideal * 2464) / 1000), "total netspace");
			const uint64_t n = s.u64();
			pbt::check_eq(big(to_effective_space(n)), Z(Z(n) * 2464 / 1000), "effective space");
			const int k = s.range(1, 45);
			pbt::check_eq(Z(get_effective_plot_size(k)), Z(((Z(2 * k + 1) << (k - 1)) * 2464) / 1000), "effective plot size");
			c.nontrivial(sd); c.label("netspace");
			break;
		}
		case 1: case 2: {
			// a plot of size (2k+1)*2^(k-1) wins if quality / 2^(k-1) < (2^255 / (diff * constant)) * (2k+1)
			const int k = s.range(1, 40);
			const uint64_t sd = s.chance(10) ? 0 : s.u64() >> s.range(0, 63);
			const bool hf = s.flip();
			hash_t q = gen_hash(s);
			if(sd && s.chance(60)) {		// right at the threshold
				Z t = ((Z(1) << 255) / (Z(sd) * p->space_diff_constant)) * (2 * k + 1);
				t <<= k - 1;
				if(hf) t <<= p->post_filter;
				t += int64_t(s.range(0, 4)) - 2;
				if(t >= 0 && t < (Z(1) << 256)) {
					for(int i = 0; i < 32; ++i) q.bytes[i] = uint8_t((t >> (8 * i)) & Z(255));
					c.label("at threshold");
				}
			}
			bool want = false;
			if(sd) {
				const Z t = ((Z(1) << 255) / (Z(sd) * p->space_diff_constant)) * (2 * k + 1);
				Z v = big(q);
				if(hf) v >>= p->post_filter;
				want = (v >> (k - 1)) < t;
			}
			NOTE("check_proof_threshold k=" << k << " diff=" << sd << " hardfork=" << hf << " quality=" << q);
			pbt::check_eq(check_proof_threshold(p, k, q, sd, hf), want, "proof threshold");
			c.label(want ? "wins" : "loses"); c.nontrivial(sd);
			break;
		}
		case 3: {
			const uint64_t td = gen_bits(s, 40);
			NOTE("time_diff=" << td);
			pbt::check_eq(get_block_iters(p, td), (td / p->time_diff_divider) * p->time_diff_constant, "block iters");
			pbt::check_eq(Z(get_vdf_speed(p, td)), Z(((Z(td) * p->time_diff_constant * 1000) / p->time_diff_divider / p->block_interval_ms) % TWO64), "vdf speed");
			c.nontrivial(td); c.label("iters");
			break;
		}
		case 4: case 5: {
			auto prev = BlockHeader::create();
			prev->space_diff = s.chance(15) ? s.u64() : gen_bits(s, 48);
			prev->space_fork_len = s.chance(10) ? 0 : s.range(1, p->max_space_fork_len * p->challenge_interval * (s.chance(20) ? 2 : 1));
			const uint64_t expected = uint64_t(prev->space_fork_len) * p->avg_proof_count;
			prev->space_fork_proofs = s.chance(40) ? expected + s.range(0, 4) - std::min<uint64_t>(2, expected) : s.range(0, expected * 5);
			const uint64_t d = prev->space_diff;
			Z want;
			if(d >> 48) {
				want = d - d / 1024;
			} else if(!prev->space_fork_len) {
				want = d;
			} else {
				const Z next = Z(d) * prev->space_fork_proofs / expected;
				Z divider = Z(16 * p->challenge_interval) / prev->space_fork_len;
				if(divider < 1) divider = 1;
				const bool up = prev->space_fork_proofs > expected;
				Z delta = up ? Z(next - d) : Z(Z(d) - next);
				delta /= divider;
				if(delta < 1) delta = 1;
				want = up ? Z(d + delta) : (Z(d) > delta ? Z(d - delta) : Z(1));
			}
			NOTE("space_diff=" << d << " fork_len=" << prev->space_fork_len << " proofs=" << prev->space_fork_proofs << " expected=" << expected);
			pbt::check_eq(Z(calc_new_space_diff(p, prev)), want, "new space diff");
			// the header applies it at space forks only
			auto block = BlockHeader::create();
			block->is_space_fork = s.flip();
			block->height = s.range(0, 200000);
			block->vdf_count = s.range(1, 100);
			for(size_t i = 0, n = s.range(0, 3); i < n; ++i) block->proof.push_back(ProofOfSpaceOG::create());
			block->set_space_diff(p, prev);
			pbt::check_eq(block->space_fork_len, block->vdf_count + (block->is_space_fork ? 0 : prev->space_fork_len), "space fork length");
			pbt::check_eq(block->space_fork_proofs, uint32_t(block->proof.size()) + (block->is_space_fork ? 0 : prev->space_fork_proofs), "space fork proofs");
			pbt::check_eq(Z(block->space_diff), block->is_space_fork ? want : Z(d), "header space diff");
			if(d && d >> 48 == 0) CHECK_MSG(calc_new_space_diff(p, prev) > 0, "space difficulty fell to zero");
			c.nontrivial(prev->space_fork_len && d >> 48 == 0);
			c.label(prev->space_fork_proofs > expected ? "up" : "down");
			break;
		}
		case 6: {
			const uint64_t one = uint64_t(1) << (2 * p->max_diff_adjust);
			const uint64_t r = s.chance(20) ? s.of<uint64_t>({0, one}) : s.range(0, one);
			const bool og = s.flip();
			const Z want = (Z(r) * ((uint64_t(1) << p->max_diff_adjust) - 1) + (og ? Z(one) : Z(0))) >> p->max_diff_adjust;
			NOTE("ratio=" << r << " og=" << og);
			const auto got = calc_new_netspace_ratio(p, r, og);
			pbt::check_eq(Z(got), want, "netspace ratio");
			CHECK_MSG(got <= one && (og ? got >= r : got <= r), "ratio moved the wrong way or out of range");
			c.nontrivial(); c.label("ratio");
			break;
		}
		default: {
			auto prev = BlockHeader::create(); auto block = BlockHeader::create();
			prev->vdf_iters = gen_bits(s, 62);
			block->vdf_count = s.range(1, 100);
			block->vdf_iters = prev->vdf_iters + gen_bits(s, 58);
			if(!s.chance(10)) {
				for(size_t i = 0, n = s.range(1, 3); i < n; ++i) {
					auto proof = ProofOfSpaceOG::create();
					proof->difficulty = s.u64();
					block->proof.push_back(proof);
				}
			}
			const Z per = (Z(block->vdf_iters) - prev->vdf_iters) / block->vdf_count / p->time_diff_constant;
			const Z want = block->proof.empty() ? Z(0) : Z((per * block->proof[0]->difficulty * p->avg_proof_count) % TWO128);
			NOTE("iters=" << block->vdf_iters - prev->vdf_iters << " count=" << block->vdf_count << " proofs=" << block->proof.size());
			pbt::check_eq(big(calc_block_weight(p, block, prev)), want, "block weight");
			c.nontrivial(want > 0); c.label("weight");
		}
	}
}

PROPERTY(rewards_and_fees) {
	const auto p = gen_params(s, c);
	{
		const uint64_t fees = gen_bits(s, 56), reward = gen_bits(s, 60);
		Z project = Z(p->project_ratio.value) * fees / p->project_ratio.inverse + p->fixed_project_reward;
		if(project > Z(fees / 2)) project = fees / 2;
		const Z burn = std::max<Z>(project, fees / 2);
		NOTE("fees=" << fees << " reward=" << reward);
		pbt::check_eq(Z(calc_project_reward(p, fees)), project, "project reward");
		const auto out = calc_final_block_reward(p, reward, fees);
		pbt::check_eq(Z(out), Z(Z(reward) + fees - burn), "final block reward");
		CHECK_MSG(Z(out) + calc_project_reward(p, fees) <= Z(reward) + fees, "more paid out than reward plus fees");
		c.label(project == Z(fees / 2) ? "project capped" : "project ratio");
		if(fees) c.nontrivial();
	}
	{
		auto prev = BlockHeader::create();
		prev->txfee_buffer = s.chance(30) ? s.range(0, 9000000) : gen_bits(s, 60);
		prev->tx_fees = gen_bits(s, 56);
		Z ded = Z(prev->txfee_buffer) / 8640;
		if(ded < 1000) ded = 1000;
		if(ded > prev->txfee_buffer) ded = prev->txfee_buffer;
		NOTE("buffer=" << prev->txfee_buffer << " tx_fees=" << prev->tx_fees);
		pbt::check_eq(Z(calc_min_reward_deduction(p, prev->txfee_buffer)), ded, "min reward deduction");
		pbt::check_eq(Z(calc_new_txfee_buffer(p, prev)), Z(Z(prev->txfee_buffer) - ded + prev->tx_fees), "txfee buffer");
	}
	{
		auto prev = BlockHeader::create();
		prev->base_reward = s.chance(25) ? 4200000000000ull - s.range(0, 3) * p->reward_adjust_tick : s.chance(30) ? s.range(0, 3 * p->reward_adjust_tick) : gen_bits(s, 42);
		prev->reward_vote_sum = s.chance(20) ? 0 : int(s.range(0, 20000)) - 10000;
		prev->reward_vote_count = s.chance(40) ? p->reward_adjust_interval / 2 + s.range(0, 2) - 1 : s.range(0, p->reward_adjust_interval);
		Z want = prev->base_reward;
		if(prev->reward_vote_count >= p->reward_adjust_interval / 2) {
			Z step = Z(prev->base_reward) / p->reward_adjust_div;
			if(step < p->reward_adjust_tick) step = p->reward_adjust_tick;
			if(prev->reward_vote_sum > 0) want += step;
			if(prev->reward_vote_sum < 0) want -= step;
			if(want > 4200000000000ll) want = 4200000000000ll;
			if(want < 0) want = 0;
			c.label("vote counted");
		}
		NOTE("base_reward=" << prev->base_reward << " votes=" << prev->reward_vote_sum << "/" << prev->reward_vote_count);
		pbt::check_eq(Z(calc_new_base_reward(p, prev)), want, "base reward");
		auto block = BlockHeader::create();
		block->height = s.chance(40) ? s.range(0, 3) * p->reward_adjust_interval : s.range(0, 10000000);
		block->reward_vote = char(int(s.range(0, 2)) - 1);
		block->set_base_reward(p, prev);
		// votes accumulate over an interval; the reward changes at the first block of an interval only
		const bool first = block->height % p->reward_adjust_interval == 0;
		pbt::check_eq(Z(block->base_reward), first ? want : Z(prev->base_reward), "header base reward");
		pbt::check_eq(int(block->reward_vote_sum), (first ? 0 : prev->reward_vote_sum) + int((signed char)block->reward_vote), "vote sum");
		pbt::check_eq(block->reward_vote_count, (first ? 0 : prev->reward_vote_count) + (block->reward_vote ? 1 : 0), "vote count");
	}
	{
		const uint64_t cost = s.u64(), fee = s.u64();
		const uint32_t ratio = std::max<uint32_t>(s.u32(), 1);
		NOTE("cost=" << cost << " fee=" << fee << " ratio=" << ratio);
		const Z w1 = Z(cost) * ratio / 1024, w2 = Z(fee) * 1024 / ratio;
		bool threw = false; uint64_t got = 0;
		try { got = cost_to_fee<std::runtime_error>(cost, ratio); } catch(const std::runtime_error&) { threw = true; }
		pbt::check_eq(threw, w1 >= TWO64, "cost_to_fee overflow");
		if(!threw) pbt::check_eq(Z(got), w1, "cost_to_fee");
		threw = false;
		try { got = fee_to_cost<std::runtime_error>(fee, ratio); } catch(const std::runtime_error&) { threw = true; }
		pbt::check_eq(threw, w2 >= TWO64, "fee_to_cost overflow");
		if(!threw) pbt::check_eq(Z(got), w2, "fee_to_cost");
		const uint64_t a = s.u64(), b = s.flip() ? s.u64() : a + s.range(0, 2) - 1;
		pbt::check_eq(clamped_sub(a, b), a > b ? a - b : 0, "clamped_sub");
	}
}

PROPERTY(challenges) {
	const auto p = gen_params(s, c);
	const hash_t challenge = gen_hash(s), plot_id = gen_hash(s), proof = gen_hash(s);
	{
		const auto h = H(cat(cat(std::string("plot_filter"), plot_id), challenge));
		const bool pass = (big(h) >> (256 - p->plot_filter)) == 0;
		NOTE("filter=" << p->plot_filter << " challenge=" << challenge << " plot_id=" << plot_id);
		pbt::check_eq(check_plot_filter(p, challenge, plot_id), pass, "plot filter");
		pbt::check_eq(get_plot_challenge(challenge, plot_id), H(cat(cat(std::string("plot_challenge"), plot_id), challenge)), "plot challenge");
		if(pass) c.label("filter passed");
	}
	{
		auto prev = BlockHeader::create(); auto block = BlockHeader::create();
		prev->challenge = challenge;
		prev->height = s.chance(50) ? p->hardfork2_height + s.range(0, 4) - std::min<uint32_t>(2, p->hardfork2_height) : s.range(0, 10000000);
		block->height = prev->height + 1;
		block->vdf_count = s.range(0, 5);
		const uint32_t limit = p->max_space_fork_len * p->challenge_interval;
		prev->space_fork_len = s.chance(50) ? limit - std::min<uint32_t>(limit, block->vdf_count) + s.range(0, 2) - 1 : s.range(0, limit * 2);
		prev->space_fork_len = std::min<uint32_t>(prev->space_fork_len, 1u << 30);
		block->proof_hash = proof;
		block->proof_chain = gen_hash(s);
		prev->proof_chain = gen_hash(s);
		hash_t out = prev->challenge;
		for(uint32_t i = 0; i < block->vdf_count; ++i) out = H(cat(std::string("next_challenge"), out));
		const hash_t used = block->height >= p->hardfork2_height ? block->proof_chain : block->proof_hash;
		const bool by_chance = big(H(cat(cat(std::string("proof_infusion_check"), out), used))) % p->challenge_interval == 0;
		const bool forced = uint64_t(prev->space_fork_len) + block->vdf_count > limit && block->height >= p->hardfork2_height;
		NOTE("height=" << block->height << " hardfork2=" << p->hardfork2_height << " vdf_count=" << block->vdf_count << " fork_len=" << prev->space_fork_len << " limit=" << limit);
		pbt::check_eq(check_space_fork(p, out, used), by_chance, "space fork check");
		const hash_t want = by_chance || forced ? H(cat(cat(std::string("challenge_infusion"), out), used)) : out;
		bool fork = s.flip();
		pbt::check_eq(calc_next_challenge(p, prev, block, fork), want, "next challenge");
		pbt::check_eq(fork, by_chance || forced, "is_space_fork");
		pbt::check_eq(calc_proof_chain(p, prev, proof), prev->height >= p->hardfork2_height ? H(cat(cat(std::string("proof_chain"), prev->proof_chain), proof)) : proof, "proof chain");
		if(forced) c.label("forced fork");
		if(by_chance) c.label("fork by chance");
		c.label(block->height >= p->hardfork2_height ? "after fork" : "before fork");
	}
	{
		std::vector<uint32_t> xs;
		for(size_t i = 0, n = s.size(300); i < n; ++i) xs.push_back(s.draw(0));
		bytes raw;
		for(auto x : xs) for(int i = 0; i < 4; ++i) raw.push_back(uint8_t(x >> (8 * i)));
		bytes two = challenge.to_vector();
		pbt::check_eq(calc_proof_hash(challenge, xs), H(cat(two, H(raw))), "proof hash");
		c.nontrivial(xs.size() > 1);
	}
}

PROPERTY(implicit_deposit) {
	std::unordered_map<addr_t, uint128> amounts;
	std::map<addr_t, uint128> sorted;
	for(size_t i = 0, n = s.range(0, 6); i < n; ++i) {
		addr_t a; a.bytes[s.draw(32)] = s.draw(4);
		const uint128 v = s.chance(25) ? uint128() : uint128(s.u64());
		amounts[a] = v; sorted[a] = v;
	}
	const addr_t target = addr_t(hash_t("target"));
	const bool have = s.flip(), hf2 = s.flip();
	std::vector<txout_t> out;
	txout_t first; first.amount = 7; out.push_back(first);
	bool threw = false;
	try { handle_implicit_deposit(out, amounts, target, have, hf2); } catch(const std::logic_error&) { threw = true; }
	size_t n = 0;
	for(auto& e : sorted) if(e.second) n++;
	NOTE(amounts.size() << " amounts, " << n << " non-zero, deploy=" << have << " hf2=" << hf2);
	pbt::check_eq(threw, n && !have, "refused");
	if(threw) { c.nontrivial(); return; }
	pbt::check_eq(out.size(), n + 1, "number of outputs");
	std::map<addr_t, uint128> got;
	for(size_t i = 1; i < out.size(); ++i) {
		CHECK_MSG(out[i].address == target && !out[i].memo, "output to someone else");
		CHECK_MSG(!got.count(out[i].contract), "currency deposited twice");
		got[out[i].contract] = out[i].amount;
		if(hf2 && i > 1) CHECK_MSG(out[i - 1].contract < out[i].contract, "order not deterministic");
	}
	for(auto& e : sorted) if(e.second) pbt::check_eq(got[e.first], e.second, "amount");
	c.nontrivial(n > 0);
}

// ---------------------------------------------------------------------------------------------------------

static uint128 gen_u128(Src& s) {
	switch(s.draw(4)) {
		case 0: return s.u64();
		case 1: { const auto k = s.range(64, 127); const auto d = s.range(0, 4); return small(((Z(1) << k) + d - 2) % TWO128); }
		case 2: { const auto b = s.range(0, 64); return small((Z(s.draw(0)) << b) + s.u64()); }
		default: { const auto k = s.range(0, 38); const auto d = s.range(0, 4); return small((pow10(k) + TWO128 + d - 2) % TWO128); }
	}
}

PROPERTY(uint128_text) {
	const uint128 v = gen_u128(s);
	const Z z = big(v);
	NOTE(z);
	pbt::check_eq(v.to_string(), z.str(), "decimal");
	pbt::check_eq(uint128(v.to_string()), v, "decimal round trip");
	pbt::check_eq(uint128(v.to_hex_string()), v, "hex round trip");
	pbt::check_eq(v.to_var_arg().to<uint128>(), v, "variant argument");
	pbt::check_eq(vnx::Variant(v).to<uint128>(), v, "variant");
	{
		const std::string json = v.to_var_arg().is_string() ? "\"" + v.to_var_arg().to_string_value() + "\"" : v.to_var_arg().to_string_value();
		(void)json;
		std::stringstream io;
		vnx::write(io, v);
		uint128 w; vnx::read(io, w);
		pbt::check_eq(w, v, "text stream");
		const double d = v.to_double(), e = z.convert_to<double>();
		CHECK_MSG(std::abs(d - e) <= std::abs(e) * 1e-15, "to_double");
	}
	// values above 128 bits are refused
	const Z over = TWO128 + (s.flip() ? Z(s.u64()) : (Z(s.u64()) << s.range(0, 126)));
	bool threw = false;
	try { uint128 w(over.str()); (void)w; } catch(const std::exception&) { threw = true; }
	CHECK_MSG(threw, "accepted " << over << " as a 128-bit value");
	threw = false;
	try { std::ostringstream h; h << std::hex << over; uint128 w("0x" + h.str()); (void)w; } catch(const std::exception&) { threw = true; }
	CHECK_MSG(threw, "accepted 0x.. " << over << " as a 128-bit value");
	// 64-bit text and negative or malformed text
	uint64_t small64 = s.u64();
	pbt::check_eq(uint128(std::to_string(small64)), uint128(small64), "64-bit text");
	c.nontrivial(z > 0);
}

PROPERTY(fixed_text) {
	const auto what = s.draw(4);
	if(what == 0) {		// any fixed value prints and reads back
		fixed128 f; f.fixed = gen_u128(s);
		NOTE("fixed=" << big(f.fixed) << " text=" << f.to_string());
		pbt::check_eq(big(fixed128(f.to_string()).fixed), big(f.fixed), "text round trip");
		pbt::check_eq(big(f.uint()), Z(big(f.fixed) / pow10(15)), "integer part");
		pbt::check_eq(Z(f.fractional()), Z(big(f.fixed) % pow10(15)), "fraction");
		{
			vnx::Variant var(f.to_string());
			pbt::check_eq(big(var.to<fixed128>().fixed), big(f.fixed), "from string variant");
		}
		c.nontrivial(bool(f.fixed));
		c.label("value");
		return;
	}
	if(what == 1) {		// integers and amounts
		const uint128 v = gen_u128(s);
		const int dec = s.range(0, 18);
		NOTE("amount=" << big(v) << " decimals=" << dec);
		// the quotient is exact for up to 15 decimals and rounded down beyond
		const Z want = big(v) * pow10(15) / pow10(dec);
		bool threw = false; fixed128 f;
		try { f = fixed128(v, dec); } catch(const std::exception&) { threw = true; }
		pbt::check_eq(threw, want >= TWO128, "fixed128(amount, decimals) out of range");
		if(!threw) {
			pbt::check_eq(big(f.fixed), want, "fixed128(amount, decimals)");
			if(dec <= 15) pbt::check_eq(big(f.to_amount(dec)), big(v), "amount round trip");
		}
		threw = false;
		try { f = fixed128(v); } catch(const std::exception&) { threw = true; }
		pbt::check_eq(threw, big(v) * pow10(15) >= TWO128, "fixed128(integer) out of range");
		if(!threw) pbt::check_eq(big(f.fixed), Z(big(v) * pow10(15)), "fixed128(integer)");
		fixed128 g; g.fixed = gen_u128(s);
		const Z amount = big(g.fixed) * pow10(dec) / pow10(15);
		threw = false; uint128 a;
		try { a = g.to_amount(dec); } catch(const std::exception&) { threw = true; }
		pbt::check_eq(threw, amount >= TWO128, "to_amount out of range");
		if(!threw) pbt::check_eq(big(a), amount, "to_amount");
		c.nontrivial(bool(v)); c.label("amount");
		return;
	}
	// decimal text: digits [. digits] [e exponent]
	std::string integer = s.flip() ? std::to_string(s.u64()) : big(gen_u128(s)).str();
	if(s.chance(10)) integer = "0" + integer;
	std::string text = integer, fract;
	int exp = 0;
	if(s.chance(70)) {
		fract = s.text(s.range(0, s.flip() ? 6 : 20), s.flip() ? "0123456789" : "09");
		text += (s.chance(80) ? "." : ",") + fract;
	}
	const bool has_exp = s.chance(30);
	if(has_exp) {
		exp = int(s.range(0, 34)) - 17;
		text += (s.flip() ? "e" : "E") + std::to_string(exp);
	}
	NOTE("text=" << text);
	const std::string kept = fract.substr(0, 15);		// further digits are dropped
	Z want = Z(integer.find_first_not_of('0') == std::string::npos ? "0" : integer.substr(integer.find_first_not_of('0'))) * pow10(15);
	if(kept.find_first_not_of('0') != std::string::npos) want += Z(kept.substr(kept.find_first_not_of('0'))) * pow10(15 - kept.size());
	const bool bad_exp = std::abs(exp) > 15 - int(kept.size());
	if(exp >= 0) want *= pow10(exp); else want /= pow10(-exp);
	bool threw = false; fixed128 f; std::string err;
	try { f = fixed128(text); } catch(const std::exception& ex) { threw = true; err = ex.what(); }
	const Z whole = Z(integer.find_first_not_of('0') == std::string::npos ? "0" : integer.substr(integer.find_first_not_of('0')));
	if(bad_exp) {
		CHECK_MSG(threw, "exponent out of range accepted");
		c.label("exponent refused");
	} else if(want >= TWO128 || whole * pow10(15) >= TWO128) {
		CHECK_MSG(threw, "value out of range accepted: read as " << f.to_string());
		c.label("overflow refused"); c.nontrivial();
	} else {
		CHECK_MSG(!threw, "refused: " << err);
		pbt::check_eq(big(f.fixed), want, "value of text");
		c.label(has_exp ? "exponent" : "plain"); c.nontrivial();
	}
	// text which is not a number
	std::string bad = text;
	const char junk = s.of<char>({'x', ' ', '+', '"', 'a', '%'});
	bad.insert(bad.begin() + s.index(bad.size() + 1), junk);
	threw = false;
	try { fixed128 g(bad); } catch(const std::exception&) { threw = true; }
	CHECK_MSG(threw, "accepted '" << bad << "'");
}

PROPERTY(amount_from_double) {
	const int dec = s.range(0, 18);
	double v;
	switch(s.draw(6)) {
		case 0: v = double(s.u64()); break;
		case 1: v = double(s.range(0, 1000000000)) / 1e6; break;
		case 2: v = std::ldexp(double(s.draw(0) >> 11), int(s.range(0, 140)) - 60); break;
		case 3: v = std::ldexp(1.0, int(s.range(0, 140)) - 10); break;
		case 4: v = s.of<double>({0.0, NAN, INFINITY, -INFINITY, -1.0, -0.0, 1e300, 5e-324, 3.402823669209385e38}); break;
		default: v = double(s.range(1, 999)) * std::pow(10, int(s.range(0, 24)) - 12);
	}
	NOTE("value=" << v << " decimals=" << dec);
	bool threw = false; uint128 got;
	try { got = to_amount(v, dec); } catch(const std::exception&) { threw = true; }
	if(!std::isfinite(v) || v < 0) {
		CHECK_MSG(threw, "accepted " << v << " as amount " << big(got));
		c.label("refused");
		return;
	}
	// exact value of the double
	int e = 0;
	const double m = std::frexp(v, &e);
	const Z mant = Z(int64_t(std::ldexp(m, 53)));
	e -= 53;
	Z num = mant * pow10(dec), den = 1;
	if(e >= 0) num <<= e; else den <<= std::min(-e, 2000);
	const Z whole = num / den;
	if(whole >= TWO128 + 1) {
		CHECK_MSG(threw, "out of range value accepted as " << big(got));
		c.label("overflow refused"); c.nontrivial();
		return;
	}
	if(whole + 1000000 >= TWO128) return;		// rounding at the very end of the range
	CHECK_MSG(!threw, "refused a value in range");
	// fractions are rounded in double precision: one unit, plus the rounding error of frac * 10^decimals
	const Z diff = big(got) > whole ? Z(big(got) - whole) : Z(whole - big(got));
	const Z tol = 1 + (pow10(dec) >> 51);
	CHECK_MSG(diff <= tol, "amount off by " << diff << ": got " << big(got) << ", exact " << whole);
	c.nontrivial(whole > 0);
	if(dec <= 15 && whole < pow10(15)) {
		const double back = to_value(got, dec);
		CHECK_MSG(std::abs(back - v) <= 1.5 * std::pow(10, -dec) + v * 1e-15, "value of amount: " << back);
	}
}
