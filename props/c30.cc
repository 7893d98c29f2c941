// C30: CSV logs.
#include <cstdlib>

#include "harness/sim.h"
#include "logging/csv_logger.h"

namespace {
using namespace sim;  // NOLINT

std::vector<std::string> Lines(const std::string& text, const char* what) {
  std::vector<std::string> lines;
  size_t pos = 0;
  while (pos < text.size()) {
    const size_t end = text.find('\n', pos);
    PBT_CHECK(end != std::string::npos, "the " << what << " log does not end with a new line");
    lines.push_back(text.substr(pos, end - pos));
    pos = end + 1;
  }
  return lines;
}

std::vector<std::string> Columns(const std::string& line) {
  std::vector<std::string> columns(1);
  for (char ch : line) {
    if (ch == ',') {
      columns.emplace_back();
    } else {
      columns.back() += ch;
    }
  }
  return columns;
}

void Number(const std::string& text, double want, const char* what, const std::string& line) {
  char* end = nullptr;
  const double got = std::strtod(text.c_str(), &end);
  PBT_CHECK(!text.empty() && *end == '\0', what << " \"" << text << "\" in " << line);
  PBT_CHECK(std::abs(got - want) <= 0.000501 + 1e-6 * std::abs(want), what << " " << got << " instead of " << want << " in " << line);
}

void CheckRow(const std::string& line, const Event& e) {
  const std::vector<std::string> v = Columns(line);
  PBT_CHECK(v.size() == 14, v.size() << " columns instead of 14 in " << line << " of " << e.Str());
  char time[40];
  snprintf(time, sizeof(time), "%lld", static_cast<long long>(e.tick.timestamp_sec()));
  PBT_CHECK(v[0] == time, "time " << v[0] << " instead of " << time << " in " << line);
  Number(v[1], e.tick.open(), "open", line);
  Number(v[2], e.tick.high(), "high", line);
  Number(v[3], e.tick.low(), "low", line);
  Number(v[4], e.tick.close(), "close", line);
  Number(v[5], e.tick.volume(), "volume", line);
  Number(v[6], e.base, "base balance", line);
  Number(v[7], e.quote, "quote balance", line);
  Number(v[8], e.fee, "fee", line);
  if (e.kind == Event::kTick) {
    for (int i = 9; i < 14; ++i) PBT_CHECK(v[i].empty(), "order in the row of a tick: " << line);
    return;
  }
  const Order& o = e.order;
  const char* type = o.type() == Order::MARKET ? "MARKET" : o.type() == Order::STOP ? "STOP" : "LIMIT";
  PBT_CHECK(v[9] == type, "type in " << line << " of " << Str(o));
  PBT_CHECK(v[10] == (o.side() == Order::BUY ? "BUY" : "SELL"), "side in " << line << " of " << Str(o));
  if (o.oneof_amount_case() == Order::kBaseAmount) {
    Number(v[11], o.base_amount(), "base amount", line);
    PBT_CHECK(v[12].empty(), "quote amount in " << line << " of " << Str(o));
  } else {
    Number(v[12], o.quote_amount(), "quote amount", line);
    PBT_CHECK(v[11].empty(), "base amount in " << line << " of " << Str(o));
  }
  if (o.has_price() && o.price() > 0 && !(o.type() == Order::MARKET && v[13].empty())) {
    Number(v[13], o.price(), "price", line);
  } else {
    PBT_CHECK(v[13].empty(), "price in " << line << " of " << Str(o));
  }
}

void CheckLogs(const std::string& exchange, const std::string& trader_log, const Events& events) {
  const std::vector<std::string> rows = Lines(exchange, "exchange");
  const std::vector<std::string> states = Lines(trader_log, "trader");
  size_t row = 0, state = 0;
  for (const Event& e : events) {
    if (e.kind == Event::kState) {
      PBT_CHECK(state < states.size(), "no row of the state " << e.state);
      PBT_CHECK(states[state] == e.state, "state " << states[state] << " instead of " << e.state);
      ++state;
    } else {
      PBT_CHECK(row < rows.size(), "no row of " << e.Str());
      CheckRow(rows[row], e);
      ++row;
    }
  }
  PBT_CHECK(row == rows.size(), rows.size() - row << " more rows: " << rows[row]);
  PBT_CHECK(state == states.size(), states.size() - state << " more states: " << states[state]);
}

// Sends everything to two loggers.
class Tee : public Logger {
 public:
  Tee(Logger* a, Logger* b) : a_(a), b_(b) {}
  void LogExchangeState(const OhlcTick& t, const Account& account) override {
    a_->LogExchangeState(t, account);
    b_->LogExchangeState(t, account);
  }
  void LogExchangeState(const OhlcTick& t, const Account& account, const Order& o) override {
    a_->LogExchangeState(t, account, o);
    b_->LogExchangeState(t, account, o);
  }
  void LogTraderState(absl::string_view state) override {
    a_->LogTraderState(state);
    b_->LogTraderState(state);
  }

 private:
  Logger* a_;
  Logger* b_;
};

// Notes the internal state of a trader right after every update.
class StateSpy : public trader::Trader {
 public:
  StateSpy(trader::Trader* t, std::vector<std::string>* states) : t_(t), states_(states) {}
  void Update(const OhlcTick& tick, const std::vector<float>& signals, float base, float quote,
              std::vector<Order>& orders) override {
    t_->Update(tick, signals, base, quote, orders);
    states_->push_back(t_->GetInternalState());
  }
  std::string GetInternalState() const override { return t_->GetInternalState(); }

 private:
  trader::Trader* t_;
  std::vector<std::string>* states_;
};

float AnyFloat(pbt::Source& s) {
  switch (s.Draw(4)) {
    case 0: return s.Draw(100000) / 1000.0f;
    case 1: return s.Draw(1000) * 0.0001f;
    case 2: return std::ldexp(1.0 + s.Unit(20), s.Int(-20, 40));
    default: return s.Pick({0.0f, 0.001f, 0.0005f, 123456.789f, 1e9f, 1e15f, 99999.9996f});
  }
}

void Run(pbt::Case& c) {
  auto& s = c.s;
  pbt::GenZone(s);
  Events events;
  std::ostringstream exchange, trader_log;
  RecordingLogger recorder(&events);
  const bool with_exchange = !s.Chance(1, 16), with_trader = !s.Chance(1, 16);
  trader::CsvLogger csv(with_exchange ? &exchange : nullptr, with_trader ? &trader_log : nullptr);
  Tee tee(&recorder, &csv);
  if (s.Bool()) {
    // A whole execution.
    const bool built_in = s.Bool();
    const Env env = built_in ? GenUnitEnv(s, 1, 3) : GenEnv(s, 1, 2);
    const AccountConfig config = GenFundedConfig(s, env);
    HistoryOptions opt;
    opt.max_ticks = 30;
    opt.walk = s.Bool();
    opt.step = s.Chance(1, 8) ? s.Int(1, 100000) : s.Pick({300, 3600});
    const OhlcHistory h = GenOhlcHistory(s, env, opt);
    Script script;
    std::unique_ptr<TraderEmitter> emitter;
    if (built_in) {
      emitter = GenBuiltIn(s);
    } else {
      script = GenScript(s, env, h, 3);
      emitter.reset(new ScriptEmitter("script", &script, nullptr, nullptr));
    }
    PBT_DESC(c, "history:\n" << Str(h) << Str(script));
    std::unique_ptr<Trader> t = emitter->NewTrader();
    std::vector<std::string> states;
    StateSpy spy(t.get(), &states);
    const auto result = trader::ExecuteTrader(config, h.begin(), h.end(), nullptr, !s.Bool(), spy, &tee);
    size_t ticks = 0, updates = 0;
    int executed = 0;
    for (const Event& e : events) {
      if (e.kind == Event::kTick) {
        PBT_CHECK(ticks < h.size(), "more logged ticks than " << h.size());
        PBT_CHECK(e.tick.SerializeAsString() == h[ticks].SerializeAsString(), "logged tick " << ticks << " is not that of the history");
        ++ticks;
      } else if (e.kind == Event::kState) {
        PBT_CHECK(updates < states.size(), "more logged states than " << states.size() << " updates");
        PBT_CHECK(e.state == states[updates], "logged state " << e.state << " instead of " << states[updates]
                                                              << " after update " << updates);
        ++updates;
      } else {
        ++executed;
      }
    }
    PBT_CHECK(ticks == h.size(), ticks << " logged ticks instead of " << h.size());
    PBT_CHECK(updates == states.size(), updates << " logged states instead of one for each of " << states.size()
                                                << " updates");
    PBT_CHECK(executed == result.total_executed_orders(),
              executed << " logged orders, " << result.total_executed_orders() << " executed");
    c.Label("executions");
  } else {
    const int n = s.SizeOrHuge(1, 20, 2000, 512, 64);
    for (int i = 0; i < n; ++i) {
      if (s.Chance(1, 3)) {
        std::string state;
        const int len = s.Size(0, 30);
        for (int k = 0; k < len; ++k) state += static_cast<char>(s.Chance(1, 20) ? s.Int(128, 255) : s.Int(32, 126));
        tee.LogTraderState(state);
        continue;
      }
      OhlcTick tick;
      tick.set_timestamp_sec(s.Pick<int64_t>({1483228800, 0, 1, 4102444800ll, 253402300799ll}) + s.Draw(1000));
      tick.set_open(AnyFloat(s));
      tick.set_high(AnyFloat(s));
      tick.set_low(AnyFloat(s));
      tick.set_close(AnyFloat(s));
      tick.set_volume(AnyFloat(s));
      Account account;
      account.base_balance = AnyFloat(s);
      account.quote_balance = AnyFloat(s);
      account.total_fee = AnyFloat(s);
      if (s.Bool()) {
        tee.LogExchangeState(tick, account);
      } else {
        Order o;
        o.set_type(static_cast<Order::Type>(s.Draw(3)));
        o.set_side(s.Bool() ? Order::SELL : Order::BUY);
        if (s.Bool()) {
          o.set_base_amount(AnyFloat(s));
        } else {
          o.set_quote_amount(AnyFloat(s));
        }
        if (o.type() != Order::MARKET || s.Chance(1, 4)) o.set_price(AnyFloat(s));
        tee.LogExchangeState(tick, account, o);
      }
    }
    c.Label("direct logs");
  }
  PBT_DESC(c, "events:\n" << Str(events) << "exchange log:\n" << exchange.str() << "trader log:\n" << trader_log.str());
  Events expected;
  int orders = 0;
  for (const Event& e : events) {
    if (e.kind == Event::kState ? !with_trader : !with_exchange) continue;
    expected.push_back(e);
    orders += e.kind == Event::kOrder;
    if (e.kind == Event::kOrder) {
      c.Label(e.order.oneof_amount_case() == Order::kBaseAmount ? "orders for base" : "orders for quote");
      c.LabelIf(!e.order.has_price(), "orders without price");
    }
  }
  CheckLogs(exchange.str(), trader_log.str(), expected);
  c.LabelIf(!with_exchange, "no exchange log");
  c.LabelIf(!with_trader, "no trader log");
  c.nontrivial = orders > 0;
}
}  // namespace

const pbt::Property pbt::kProperty = {
    "C30", "CSV logs faithfully record each tick, account state and executed order",
    "Logs of whole executions (scripted and built-in traders) and of directly logged random ticks, accounts, orders "
    "(all types, sides, amounts, with and without price) and states, parsed back column by column and compared with "
    "what a recording logger got; with or without each of the logs. Non-trivial: at least one executed order in the "
    "exchange log.",
    450000, 10000000, Run, 20,
    {"Values are finite and trader states have no line breaks."}};
