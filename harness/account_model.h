// Reference model of order settlement and generators of accounts and orders.
#ifndef VERIF_HARNESS_ACCOUNT_MODEL_H
#define VERIF_HARNESS_ACCOUNT_MODEL_H

#include <string>

#include "base/account.h"
#include "base/base.h"
#include "harness/interval.h"
#include "harness/pbt.h"

namespace model {

using iv::Iv;
using iv::Tri;
using trader::Account;
using trader::AccountConfig;
using trader::FeeConfig;
using trader::OhlcTick;
using trader::Order;

// ---------------------------------------------------------------- model ----

struct Expect {
  Tri executes = Tri::kNo;
  Iv base;   // Traded base amount.
  Iv quote;  // Traded quote amount (without the fee).
  Iv fee;
  Iv new_base, new_quote, new_total_fee;
};

inline Iv FeeUnrounded(const FeeConfig& f, Iv quote) {
  return Max(Iv(f.minimum_fee()),
             Iv(f.fixed_fee()) + quote * Iv(f.relative_fee()));
}
inline Iv Fee(const FeeConfig& f, Iv quote, double quote_unit) {
  return CeilU(FeeUnrounded(f, quote), quote_unit);
}

inline Expect BuyBase(const Account& a, const FeeConfig& f, Iv amount, Iv price) {
  Expect e;
  e.base = RoundU(amount, a.base_unit);
  e.quote = CeilU(e.base * price, a.quote_unit);
  e.fee = Fee(f, e.quote, a.quote_unit);
  const Iv total = e.quote + e.fee;
  e.executes = And(And(Lt(Iv(0), e.base), Le(Iv(a.base_unit), e.base)),
                   Le(total, Iv(a.quote_balance)));
  e.new_base = RoundU(Iv(a.base_balance) + e.base, a.base_unit);
  e.new_quote = RoundU(Iv(a.quote_balance) - total, a.quote_unit);
  e.new_total_fee = RoundU(Iv(a.total_fee) + e.fee, a.quote_unit);
  return e;
}

inline Expect SellBase(const Account& a, const FeeConfig& f, Iv amount, Iv price) {
  Expect e;
  e.base = RoundU(amount, a.base_unit);
  e.quote = FloorU(e.base * price, a.quote_unit);
  e.fee = Fee(f, e.quote, a.quote_unit);
  const Iv total = e.quote - e.fee;
  e.executes = And(And(Lt(Iv(0), e.base), Le(Iv(a.base_unit), e.base)),
                   And(Le(e.base, Iv(a.base_balance)),
                       Le(Iv(a.quote_unit), total)));
  e.new_base = RoundU(Iv(a.base_balance) - e.base, a.base_unit);
  e.new_quote = RoundU(Iv(a.quote_balance) + total, a.quote_unit);
  e.new_total_fee = RoundU(Iv(a.total_fee) + e.fee, a.quote_unit);
  return e;
}

inline Expect BuyAtQuote(const Account& a, const FeeConfig& f, Iv quote, Iv price,
                         Iv max_base) {
  const Iv q = RoundU(quote, a.quote_unit);
  const Iv fee = Fee(f, q, a.quote_unit);
  Tri ok = And(Le(Iv(a.quote_unit), q), Le(q, Iv(a.quote_balance)));
  ok = And(ok, Lt(fee, q));
  Iv net = q - fee;
  net.lo = std::max(net.lo, 0.0);
  net.hi = std::max(net.hi, 0.0);
  const Iv base = FloorU(Min(net / price, max_base), a.base_unit);
  ok = And(ok, Le(Iv(a.base_unit), base));
  Expect e = BuyBase(a, f, base, price);
  e.executes = And(ok, e.executes);
  return e;
}

inline Expect SellAtQuote(const Account& a, const FeeConfig& f, Iv quote, Iv price,
                          Iv max_base) {
  const Iv q = RoundU(quote, a.quote_unit);
  const Iv fee = Fee(f, q, a.quote_unit);
  Tri ok = Le(Iv(a.quote_unit), q);
  const Iv base = FloorU(Min((q + fee) / price, max_base), a.base_unit);
  ok = And(ok, Le(Iv(a.base_unit), base));
  Expect e = SellBase(a, f, base, price);
  e.executes = And(ok, e.executes);
  return e;
}

inline Iv MaxBase(const Account& a, const OhlcTick& t) {
  return a.max_volume_ratio > 0
             ? FloorU(Iv(a.max_volume_ratio) * Iv(t.volume()), a.base_unit)
             : Iv(std::numeric_limits<float>::max());
}

inline Iv Interpolate(double liquidity, double best, double worst) {
  return Iv(liquidity) * Iv(best) + (Iv(1) - Iv(liquidity)) * Iv(worst);
}
inline Iv MarketPrice(const Account& a, bool buy, const OhlcTick& t) {
  return Interpolate(a.market_liquidity, t.open(), buy ? t.high() : t.low());
}
inline Iv StopPrice(const Account& a, bool buy, const OhlcTick& t, double stop) {
  return buy ? Interpolate(a.market_liquidity, std::max<double>(stop, t.open()), t.high())
             : Interpolate(a.market_liquidity, std::min<double>(stop, t.open()), t.low());
}

// Whether the order is triggered on the given tick.
inline bool Triggered(const Order& o, const OhlcTick& t) {
  const bool buy = o.side() == Order::BUY;
  switch (o.type()) {
    case Order::MARKET: return true;
    case Order::STOP: return buy ? t.high() >= o.price() : t.low() <= o.price();
    case Order::LIMIT: return buy ? t.low() <= o.price() : t.high() >= o.price();
  }
  return false;
}
inline Iv Price(const Account& a, const Order& o, const OhlcTick& t) {
  const bool buy = o.side() == Order::BUY;
  switch (o.type()) {
    case Order::MARKET: return MarketPrice(a, buy, t);
    case Order::STOP: return StopPrice(a, buy, t, o.price());
    case Order::LIMIT: return Iv(o.price());
  }
  return Iv(0);
}
inline const FeeConfig& FeeOf(const AccountConfig& c, const Order& o) {
  switch (o.type()) {
    case Order::STOP: return c.stop_order_fee_config();
    case Order::LIMIT: return c.limit_order_fee_config();
    default: return c.market_order_fee_config();
  }
}

// Full model of ExecuteOrder.
inline Expect Execute(const Account& a, const AccountConfig& c, const Order& o,
                      const OhlcTick& t) {
  if (!Triggered(o, t)) return Expect();
  const Iv price = Price(a, o, t);
  const FeeConfig& fee = FeeOf(c, o);
  const Iv max_base = o.type() == Order::LIMIT
                          ? MaxBase(a, t)
                          : Iv(std::numeric_limits<float>::max());
  const bool buy = o.side() == Order::BUY;
  if (o.oneof_amount_case() == Order::kBaseAmount) {
    const Iv amount = Min(Iv(o.base_amount()), max_base);
    return buy ? BuyBase(a, fee, amount, price) : SellBase(a, fee, amount, price);
  }
  return buy ? BuyAtQuote(a, fee, Iv(o.quote_amount()), price, max_base)
             : SellAtQuote(a, fee, Iv(o.quote_amount()), price, max_base);
}

// ----------------------------------------------------------- generators ----

// In the exact regime all values have only a few significant bits, so that the
// model gives a single value. The realistic regime uses decimal units.
struct Env {
  bool exact = true;
  double bu = 0;    // Base unit.
  double qu = 0;    // Quote unit.
  int price_exp = 0;  // Exact regime: prices are multiples of 2^-price_exp.
  double price_scale = 1;  // Realistic regime.
  double base_scale = 1;
  // Exact regime: powers of two by which base amounts and prices are multiplied,
  // so that there are also very big (and very small) amounts and prices.
  double b_scale = 1;
  double p_scale = 1;
  double q_scale() const { return b_scale * p_scale; }
  double BaseUnitOr(double fallback) const { return bu > 0 ? bu : fallback * b_scale; }
  double QuoteUnitOr(double fallback) const { return qu > 0 ? qu : fallback * q_scale(); }
};

inline double Float(double v) { return static_cast<double>(static_cast<float>(v)); }

// Amount read back from the account: outside of the exact regime (or without a
// unit to round to) it carries the rounding error of a single float.
inline Iv Stored(double v, const Env& env, double unit) {
  if (env.exact && unit > 0) return Iv(v);
  const double err = std::abs(v) * 0x1p-22;
  return Iv(v - err, v + err);
}

// Rounds to the given number of significant bits.
inline double FewBits(double v, int bits) {
  int e;
  const double m = std::frexp(v, &e);
  return std::ldexp(std::round(std::ldexp(m, bits)), e - bits);
}

inline Env GenEnv(pbt::Source& s, int exact_weight = 3, int real_weight = 1) {
  Env env;
  env.exact = s.Weighted({exact_weight, real_weight}) == 0;
  if (env.exact) {
    env.bu = s.Chance(1, 8) ? 0 : std::ldexp(1.0, -static_cast<int>(s.Draw(9)) + 1);
    env.qu = s.Chance(1, 8) ? 0 : std::ldexp(1.0, -static_cast<int>(s.Draw(9)) + 1);
    env.price_exp = s.Draw(5);
    if (s.Chance(1, 6)) {
      const int b = s.Pick({34, 26, 10, -12, 40});
      env.b_scale = std::ldexp(1.0, b);
      env.p_scale = std::ldexp(1.0, s.Bool() ? -b : s.Pick({0, -20, 12}));
      env.bu *= env.b_scale;
      env.qu *= env.q_scale();
    }
  } else {
    env.bu = Float(s.Pick({0.001, 0.00001, 0.0, 0.1, 1.0, 0.00000001, 0.0025, 0.3, 10.0}));
    env.qu = Float(s.Pick({0.01, 0.0, 0.001, 1.0, 0.05, 0.0001, 0.25, 5.0, 100.0}));
    env.price_scale = std::pow(10.0, s.Int(-2, 5));
    env.base_scale = std::pow(10.0, s.Int(-3, 3));
    if (env.bu > 0 && env.base_scale / env.bu > 1e6) env.base_scale = env.bu * 1e6;
    if (env.bu > 0 && env.base_scale / env.bu < 8) env.base_scale = env.bu * 8;
    // Keep the balances within the precision of the units.
    if (env.qu > 0 && env.base_scale * env.price_scale / env.qu > 1e6) {
      env.price_scale = 1e6 * env.qu / env.base_scale;
    }
  }
  return env;
}

inline double GenPrice(pbt::Source& s, const Env& env) {
  if (env.exact) {
    return env.p_scale * std::ldexp(1.0 + s.Draw(s.Chance(1, 3) ? 255 : 31), -env.price_exp);
  }
  return Float(env.price_scale * (0.5 + s.Unit(16)));
}

// Tick with prices low <= open, close <= high.
inline OhlcTick GenTick(pbt::Source& s, const Env& env, int64_t timestamp) {
  double p[4];
  for (double& x : p) x = GenPrice(s, env);
  if (s.Chance(1, 6)) p[1] = p[0];
  if (s.Chance(1, 6)) p[2] = p[0];
  if (s.Chance(1, 10)) p[1] = p[2] = p[3] = p[0];
  const double high = std::max(std::max(p[0], p[1]), std::max(p[2], p[3]));
  const double low = std::min(std::min(p[0], p[1]), std::min(p[2], p[3]));
  double open = p[0], close = p[1];
  OhlcTick t;
  t.set_timestamp_sec(timestamp);
  t.set_open(open);
  t.set_close(close);
  t.set_high(high);
  t.set_low(low);
  return t;
}

inline FeeConfig GenFee(pbt::Source& s, const Env& env) {
  FeeConfig f;
  if (env.exact) {
    const double rel[] = {0,        1 / 64.0, 1 / 128.0, 1 / 8.0,
                          1 / 16.0, 3 / 64.0, 1 / 4.0,   1 / 256.0};
    f.set_relative_fee(s.Chance(1, 8) ? (1 + s.Draw(15)) / 256.0 : rel[s.Draw(8)]);
    f.set_fixed_fee(s.Bool() ? 0 : env.q_scale() * s.Draw(33) / 8.0);
    f.set_minimum_fee(s.Bool() ? 0 : env.q_scale() * s.Draw(129) / 8.0);
  } else {
    f.set_relative_fee(s.Param({0.005, 0.0, 0.001, 0.02, 0.1}, 0, 0.3));
    const double scale = env.base_scale * env.price_scale;
    f.set_fixed_fee(s.Bool() ? 0 : scale * 0.01 * s.Unit(10));
    f.set_minimum_fee(s.Bool() ? 0 : scale * 0.05 * s.Unit(10));
  }
  if (s.Chance(1, 4)) {
    if (f.relative_fee() == 0) f.clear_relative_fee();
    if (f.fixed_fee() == 0) f.clear_fixed_fee();
    if (f.minimum_fee() == 0) f.clear_minimum_fee();
  }
  return f;
}

inline double GenLiquidity(pbt::Source& s, const Env& env) {
  if (env.exact) return s.Param({1.0, 0.0, 0.5, 0.25, 0.75}, 0, 1, 16);
  return Float(s.Param({0.5, 1.0, 0.0, 0.9, 0.123}, 0, 1));
}

inline double GenRatio(pbt::Source& s, const Env& env) {
  if (env.exact) return s.Param({0.0, 0.5, 1.0, 0.25, 0.125, 2.0}, 0, 1, 16);
  return Float(s.Param({0.0, 0.5, 1.0, 0.1, 0.01}, 0, 1));
}

// Base balance: multiple of the base unit.
inline double GenBaseAmount(pbt::Source& s, const Env& env, bool on_grid) {
  if (env.exact) {
    const double unit = env.BaseUnitOr(0.125);
    double v = unit * s.Draw(s.Chance(1, 2) ? 257 : 17);
    if (!on_grid) v += unit * s.Draw(8) / 8;
    return v;
  }
  const double v = env.base_scale * s.Unit(16);
  if (on_grid && env.bu > 0) return Float(Float(env.bu) * std::round(v / env.bu));
  return Float(v);
}
inline double GenQuoteAmount(pbt::Source& s, const Env& env, bool on_grid) {
  if (env.exact) {
    const double unit = env.QuoteUnitOr(0.125);
    double v = unit * s.Draw(s.Chance(1, 2) ? 4097 : 65);
    if (!on_grid) v += unit * s.Draw(8) / 8;
    return v;
  }
  const double v = env.base_scale * env.price_scale * s.Unit(16);
  if (on_grid && env.qu > 0) return Float(Float(env.qu) * std::round(v / env.qu));
  return Float(v);
}

inline AccountConfig GenAccountConfig(pbt::Source& s, const Env& env) {
  AccountConfig c;
  c.set_base_unit(env.bu);
  c.set_quote_unit(env.qu);
  c.set_start_base_balance(GenBaseAmount(s, env, true));
  c.set_start_quote_balance(GenQuoteAmount(s, env, true));
  *c.mutable_market_order_fee_config() = GenFee(s, env);
  *c.mutable_stop_order_fee_config() = GenFee(s, env);
  *c.mutable_limit_order_fee_config() = GenFee(s, env);
  c.set_market_liquidity(GenLiquidity(s, env));
  c.set_max_volume_ratio(GenRatio(s, env));
  // Fields that are not given are zero.
  if (s.Chance(1, 6)) {
    if (s.Bool()) c.clear_market_order_fee_config();
    if (s.Bool()) c.clear_stop_order_fee_config();
    if (s.Bool()) c.clear_limit_order_fee_config();
    if (c.base_unit() == 0) c.clear_base_unit();
    if (c.quote_unit() == 0) c.clear_quote_unit();
    if (c.start_base_balance() == 0) c.clear_start_base_balance();
    if (c.start_quote_balance() == 0) c.clear_start_quote_balance();
    if (c.market_liquidity() == 0) c.clear_market_liquidity();
    if (c.max_volume_ratio() == 0) c.clear_max_volume_ratio();
  }
  return c;
}

// Sets the account up. It is sometimes an account that was used before, and the
// given parts of it (characters: b and q for the balances, f for the fee, B and
// Q for the units, l for the liquidity, r for the volume ratio) are those of the
// configuration.
inline void SetUp(pbt::Source& s, Account& a, const AccountConfig& config, const std::string& parts) {
  const bool used = s.Chance(1, 8);
  if (used) {
    const float v = s.Pick({1.0f, 0.25f, 1000.0f});
    a.base_balance = a.quote_balance = a.total_fee = a.base_unit = a.quote_unit = v;
    a.market_liquidity = a.max_volume_ratio = 0.625f;
  }
  a.InitAccount(config);
  auto check = [&](char part, float got, float want, const char* what) {
    PBT_CHECK(parts.find(part) == std::string::npos || got == want,
              what << " of " << (used ? "a used" : "the new") << " account is " << got << " instead of " << want);
  };
  check('b', a.base_balance, config.start_base_balance(), "base balance");
  check('q', a.quote_balance, config.start_quote_balance(), "quote balance");
  check('f', a.total_fee, 0, "total fee");
  check('B', a.base_unit, config.base_unit(), "base unit");
  check('Q', a.quote_unit, config.quote_unit(), "quote unit");
  check('l', a.market_liquidity, config.market_liquidity(), "market liquidity");
  check('r', a.max_volume_ratio, config.max_volume_ratio(), "volume ratio");
}

// Order with a positive amount and (non-market orders) price around the tick.
inline Order GenOrder(pbt::Source& s, const Env& env, const OhlcTick& t,
                      const Account* a, int type = -1) {
  Order o;
  if (type < 0) type = s.Draw(3);
  o.set_type(static_cast<Order::Type>(type));
  o.set_side(s.Bool() ? Order::SELL : Order::BUY);
  const double unit_b = env.BaseUnitOr(env.exact ? 0.125 : env.base_scale / 64);
  const double unit_q = env.QuoteUnitOr(env.exact ? 0.125 : env.base_scale * env.price_scale / 64);
  if (s.Bool()) {
    double v = GenBaseAmount(s, env, s.Bool());
    if (a != nullptr && s.Chance(1, 3)) {
      v = a->base_balance + unit_b * (static_cast<double>(s.Draw(3)) - 1);
    }
    if (!(Float(v) > 0)) v = unit_b;
    o.set_base_amount(v);
  } else {
    double v = GenQuoteAmount(s, env, s.Bool());
    if (a != nullptr && s.Chance(1, 3)) {
      v = a->quote_balance + unit_q * (static_cast<double>(s.Draw(3)) - 1);
    }
    if (!(Float(v) > 0)) v = unit_q;
    o.set_quote_amount(v);
  }
  if (type != Order::MARKET || s.Chance(1, 8)) {
    double p;
    switch (s.Draw(6)) {
      case 0: p = t.open(); break;
      case 1: p = t.high(); break;
      case 2: p = t.low(); break;
      case 3: p = t.close(); break;
      case 4: {
        // Just above the high or just below the low.
        const bool above = s.Bool();
        const double at = above ? t.high() : t.low();
        double by = env.exact ? env.p_scale * std::ldexp(1.0, -env.price_exp)
                              : at * std::ldexp(1.0, -s.Int(8, 23));
        p = above ? at + by : at - by;
        if (!env.exact) {
          p = above ? std::max<float>(p, std::nextafter(t.high(), 1e30f))
                    : std::min<float>(p, std::nextafter(t.low(), 0.0f));
        }
        if (!(Float(p) > 0)) p = at;
        break;
      }
      default: p = GenPrice(s, env);
    }
    o.set_price(p);
  }
  return o;
}

// --------------------------------------------------------- descriptions ----

inline std::string Str(const FeeConfig& f) {
  std::ostringstream os;
  os.precision(9);
  os << "fee(rel=" << f.relative_fee() << ",fix=" << f.fixed_fee()
     << ",min=" << f.minimum_fee() << ")";
  return os.str();
}
inline std::string Str(const OhlcTick& t) {
  std::ostringstream os;
  os.precision(9);
  os << "tick(ts=" << t.timestamp_sec() << ",o=" << t.open() << ",h=" << t.high()
     << ",l=" << t.low() << ",c=" << t.close() << ",v=" << t.volume() << ")";
  return os.str();
}
inline std::string Str(const Order& o) {
  std::ostringstream os;
  os.precision(9);
  os << Order::Type_Name(o.type()) << " " << Order::Side_Name(o.side()) << " ";
  if (o.oneof_amount_case() == Order::kBaseAmount) os << "base=" << o.base_amount();
  if (o.oneof_amount_case() == Order::kQuoteAmount) os << "quote=" << o.quote_amount();
  if (o.has_price()) os << " @" << o.price();
  return os.str();
}
inline std::string Str(const Account& a) {
  std::ostringstream os;
  os.precision(9);
  os << "account(base=" << a.base_balance << ",quote=" << a.quote_balance
     << ",fee=" << a.total_fee << ",bu=" << a.base_unit << ",qu=" << a.quote_unit
     << ",liq=" << a.market_liquidity << ",ratio=" << a.max_volume_ratio << ")";
  return os.str();
}

inline bool SameState(const Account& a, const Account& b) {
  return a.base_balance == b.base_balance && a.quote_balance == b.quote_balance &&
         a.total_fee == b.total_fee;
}
inline bool SameParams(const Account& a, const Account& b) {
  return a.base_unit == b.base_unit && a.quote_unit == b.quote_unit &&
         a.market_liquidity == b.market_liquidity &&
         a.max_volume_ratio == b.max_volume_ratio;
}

}  // namespace model

#endif  // VERIF_HARNESS_ACCOUNT_MODEL_H
