// C31: the trader command line tool.
#include "harness/calendar.h"
#include "harness/cli.h"
#include "harness/sim.h"
#include "harness/trader_main.h"
#include "logging/csv_logger.h"
#include "traders/rebalancing_trader.h"
#include "traders/stop_trader.h"
#include "util/proto.h"

namespace {
using namespace sim;  // NOLINT

struct Flags {
  std::string ohlc, side, exchange_log, trader_log, trader, start, end;
  int months;
  double base, quote, liquidity, ratio;
  bool batch;
  uint64_t omitted = 0;  // Flags that are not given when they have the default.
  std::vector<std::string> Args() const {
    auto number = [](double v) {
      std::ostringstream os;
      os.precision(17);
      os << v;
      return os.str();
    };
    const std::vector<std::pair<std::string, std::string>> all = {
        {"--input_ohlc_history_delimited_proto_file=" + ohlc, "--input_ohlc_history_delimited_proto_file="},
        {"--input_side_history_delimited_proto_file=" + side, "--input_side_history_delimited_proto_file="},
        {"--output_exchange_log_file=" + exchange_log, "--output_exchange_log_file="},
        {"--output_trader_log_file=" + trader_log, "--output_trader_log_file="},
        {"--trader=" + trader, "--trader=stop"},
        {"--start_time=" + start, "--start_time=2017-01-01"},
        {"--end_time=" + end, "--end_time=2021-01-01"},
        {"--evaluation_period_months=" + std::to_string(months), "--evaluation_period_months=0"},
        {"--start_base_balance=" + number(base), "--start_base_balance=1"},
        {"--start_quote_balance=" + number(quote), "--start_quote_balance=0"},
        {"--market_liquidity=" + number(liquidity), "--market_liquidity=0.5"},
        {"--max_volume_ratio=" + number(ratio), "--max_volume_ratio=0.5"},
        {std::string("--evaluate_batch=") + (batch ? "true" : "false"), "--evaluate_batch=false"}};
    std::vector<std::string> args;
    for (size_t i = 0; i < all.size(); ++i) {
      if (all[i].first != all[i].second || (omitted >> i & 1) == 0) args.push_back(all[i].first);
    }
    return args;
  }
};

// The traders of the tool.
std::unique_ptr<trader::TraderEmitter> SingleTrader(const std::string& name) {
  if (name == "rebalancing") {
    trader::RebalancingTraderConfig config;
    config.set_alpha(0.7f);
    config.set_epsilon(0.05f);
    return std::unique_ptr<trader::TraderEmitter>(new trader::RebalancingTraderEmitter(config));
  }
  trader::StopTraderConfig config;
  config.set_stop_order_margin(0.1f);
  config.set_stop_order_move_margin(0.1f);
  config.set_stop_order_increase_per_day(0.01f);
  config.set_stop_order_decrease_per_day(0.1f);
  return std::unique_ptr<trader::TraderEmitter>(new trader::StopTraderEmitter(config));
}
std::vector<std::unique_ptr<trader::TraderEmitter>> BatchTraders(const std::string& name) {
  if (name == "rebalancing") {
    return trader::RebalancingTraderEmitter::GetBatchOfTraders({0.1f, 0.3f, 0.5f, 0.7f, 0.9f}, {0.01f, 0.05f, 0.1f, 0.2f});
  }
  return trader::StopTraderEmitter::GetBatchOfTraders({0.05f, 0.1f, 0.15f, 0.2f}, {0.05f, 0.1f, 0.15f, 0.2f},
                                                      {0.01f, 0.05f, 0.1f}, {0.01f, 0.05f, 0.1f});
}

std::string Time(int64_t t, bool full) {
  const cal::Civil c = cal::FromUnix(t);
  char buffer[100];
  snprintf(buffer, sizeof(buffer), "%04d-%02d-%02d", static_cast<int>(c.y), c.m, c.d);
  std::string s = buffer;
  if (full || c.sec != 0) {
    snprintf(buffer, sizeof(buffer), " %02d:%02d:%02d", static_cast<int>(c.sec / 3600),
             static_cast<int>(c.sec / 60 % 60), static_cast<int>(c.sec % 60));
    s += buffer;
  }
  return s;
}

std::string ReadFile(const std::string& path) {
  std::ifstream in(path, std::ios::binary);
  std::ostringstream os;
  os << in.rdbuf();
  return os.str();
}

struct Row {
  std::string start, end;
  std::vector<double> numbers;
};

// Rows "[start - end): numbers" of the output.
std::vector<Row> Rows(const std::string& out) {
  std::vector<Row> rows;
  std::istringstream in(out);
  std::string line;
  while (std::getline(in, line)) {
    const size_t dash = line.find(" - "), colon = line.find("): ");
    if (line.empty() || line[0] != '[' || dash == std::string::npos || colon == std::string::npos) continue;
    Row row;
    row.start = line.substr(1, dash - 1);
    row.end = line.substr(dash + 3, colon - dash - 3);
    std::string rest = line.substr(colon + 3);
    for (char& ch : rest) {
      if (ch == '%') ch = ' ';
    }
    std::istringstream numbers(rest);
    std::string number;
    while (numbers >> number) {
      char* end = nullptr;
      row.numbers.push_back(std::strtod(number.c_str(), &end));
      PBT_CHECK(*end == '\0', "number \"" << number << "\" in " << line);
    }
    rows.push_back(row);
  }
  return rows;
}

// Rows "name: score" of the output.
std::vector<std::pair<std::string, double>> Scores(const std::string& out, const std::string& prefix) {
  std::vector<std::pair<std::string, double>> scores;
  std::istringstream in(out);
  std::string line;
  while (std::getline(in, line)) {
    const size_t colon = line.rfind("]: ");
    if (line.compare(0, prefix.size(), prefix) != 0 || colon == std::string::npos) continue;
    char* end = nullptr;
    scores.emplace_back(line.substr(0, colon + 1), std::strtod(line.c_str() + colon + 3, &end));
    PBT_CHECK(*end == '\0', "score in " << line);
  }
  return scores;
}

void Printed(double got, double want, double unit, const std::string& what) {
  PBT_CHECK(std::abs(got - want) <= 0.501 * unit + 2e-6 * std::abs(want), what << " is " << got << " instead of " << want);
}

template <typename T>
void Write(pbt::Source& s, const std::string& path, const std::vector<T>& messages) {
  if (!trader::WriteDelimitedMessagesToFile(messages.begin(), messages.end(), path, s.Bool()).ok()) {
    PBT_FAIL("cannot write " << path);
  }
}

cli::Result Call(pbt::Case& c, const Flags& flags) {
  if (c.s.Chance(1, 400)) {
    c.Label("runs of the program");
    return cli::Exec("VERIF_BIN_TRADER", flags.Args());
  }
  return cli::Call(TraderMain, flags.Args());
}

void Run(pbt::Case& c) {
  auto& s = c.s;
  pbt::GenZone(s);
  const std::string dir = pbt::ScratchDir() + "/";
  Flags flags;
  flags.ohlc = dir + "ohlc.dpb";
  flags.trader = s.Bool() ? "rebalancing" : "stop";
  flags.batch = s.Chance(1, 5);
  flags.base = s.Param({1.0, 0.0, 0.5, 12.5, 100.0, 0.001}, 0, 200);
  flags.quote = flags.base == 0 ? s.Param({100.0, 5000.0, 1.5}, 1, 10000) : s.Param({0.0, 100.0, 5000.0, 0.01}, 0, 10000);
  flags.liquidity = s.Param({0.5, 1.0, 0.0, 0.25, 0.9}, 0, 1);
  flags.ratio = s.Param({0.5, 1.0, 0.0, 0.1}, 0, 1);

  // Ticks.
  Env env;
  env.exact = false;
  env.bu = Float(0.00001);
  env.qu = Float(0.01);
  env.price_scale = s.Pick({1000.0, 1.0, 60000.0});
  env.base_scale = s.Pick({1.0, 10.0, 0.1});
  HistoryOptions opt;
  opt.min_ticks = s.Chance(1, 10) ? 0 : 6;
  opt.max_ticks = flags.batch ? 24 : 80;
  opt.walk = true;
  opt.start = s.Pick<int64_t>({1483228800, 1483228800 + 3600, 1580428800, 1000000000, 2147480000, 4294960000, 1483228800 - 864000,
                               1609459200 - 864000});
  flags.months = s.Pick({0, 1, 2, 0, 3, -1, 12});
  opt.step = flags.months > 0 ? s.Pick({5 * 86400, 20 * 86400, 86400, 30 * 86400}) : s.Pick({3600, 300, 86400, 5 * 86400});
  const OhlcHistory h = GenOhlcHistory(s, env, opt);
  const bool with_side = s.Chance(1, 4);
  SideHistory side;
  const int64_t first = h.empty() ? opt.start : h.front().timestamp_sec();
  const int64_t last = h.empty() ? opt.start : h.back().timestamp_sec();
  if (with_side) {
    flags.side = dir + "side.dpb";
    side = GenSideHistory(s, first, last + opt.step, opt.step, 20);
  }

  // Time range and period.
  auto pick_time = [&](bool low) {
    switch (s.Weighted({6, 3, 1, 1})) {
      case 0: return low ? first / 86400 * 86400 : last + opt.step * s.Int(1, 3);
      case 1: {
        const int64_t t = h.empty() ? first : h[s.Draw(h.size())].timestamp_sec();
        return t + static_cast<int64_t>(s.Draw(3)) - 1;
      }
      case 2: return (low ? first : last) + s.Int(-400, 400) * 86400 / 2;
      default: return first + s.Int(0, std::max<int64_t>(1, last - first));
    }
  };
  int64_t start = pick_time(true), end = pick_time(false);
  if (start > end && !s.Chance(1, 8)) std::swap(start, end);
  if (s.Chance(1, 6)) start = 1483228800;
  if (s.Chance(1, 6)) end = 1609459200;
  if (flags.months > 0) {
    const cal::Civil civil = cal::FromUnix(start);
    if (civil.d > 28) start -= (civil.d - 28) * 86400;
  }
  flags.start = Time(start, s.Bool());
  flags.end = Time(end, s.Bool());
  if (s.Bool()) flags.omitted = s.Bool() ? 0x1fff : s.Draw(0x2000);
  c.LabelIf(flags.omitted != 0, "default flags not given");
  const bool log_exchange = s.Chance(1, flags.months > 0 ? 12 : 2), log_trader = s.Chance(1, flags.months > 0 ? 12 : 2);
  if (log_exchange) flags.exchange_log = dir + "exchange.csv";
  if (log_trader) flags.trader_log = dir + "trader.csv";
  for (const char* f : {"ohlc.dpb", "side.dpb", "exchange.csv", "trader.csv"}) unlink((dir + f).c_str());
  Write(s, flags.ohlc, h);
  if (with_side) Write(s, flags.side, side);
  // A log is overwritten.
  if (log_exchange && s.Bool()) cli::WriteFile(flags.exchange_log, std::string(100000, 'x'));

  // Unusable input.
  const char* unusable = nullptr;
  if (s.Chance(1, 5)) {
    const bool damage_side = with_side && s.Bool();
    std::string* path = damage_side ? &flags.side : &flags.ohlc;
    switch (s.Draw(7)) {
      case 0:
        *path = dir + "missing.dpb";
        unusable = "missing file";
        break;
      case 1: {
        std::string garbage;
        const int n = s.Int(1, 300);
        for (int i = 0; i < n; ++i) garbage += static_cast<char>(0x80 | s.Draw(128));
        garbage += "garbage";
        cli::WriteFile(*path, garbage);
        unusable = "garbage instead of a history";
        break;
      }
      case 2: {
        std::string content = ReadFile(*path);
        const bool gzip = content.size() > 2 && content[0] == '\x1f';
        if (gzip) {
          content.resize(s.Int(1, content.size() - 1));
          cli::WriteFile(*path, content);
          unusable = "cut history";
        } else {
          *path = dir;
          unusable = "directory instead of a file";
        }
        break;
      }
      case 3:
        (s.Bool() ? flags.start : flags.end) = s.Pick({"yesterday", "", "2017-13-01", "2017-02-30", "2017/01/01", "1"});
        unusable = "invalid time";
        break;
      case 4:
        if (flags.batch) break;
        (s.Bool() ? flags.exchange_log : flags.trader_log) = dir + "no/such/dir/log.csv";
        unusable = "log that cannot be written";
        break;
      case 5:
        if (flags.batch) break;
        flags.months = s.Int(1, 3);
        (s.Bool() ? flags.exchange_log : flags.trader_log) = dir + "exchange.csv";
        unusable = "logging of several periods";
        break;
      default:
        if (!damage_side) {
          *path = "";
          unusable = "no history file";
        }
    }
  }
  // A log to a full disk (of which only the error is seen, whenever something is logged).
  bool full_exchange = false, full_trader = false;
  if (unusable == nullptr && !flags.batch && flags.months <= 0 && s.Chance(1, 10)) {
    full_exchange = s.Bool();
    full_trader = !full_exchange || s.Chance(1, 4);
    if (full_exchange) flags.exchange_log = "/dev/full";
    if (full_trader) flags.trader_log = "/dev/full";
  }
  if (unusable == nullptr && !flags.batch && flags.months > 0 && (log_exchange || log_trader)) {
    unusable = "logging of several periods";
  }
  OhlcHistory subset;
  for (const OhlcTick& t : h) {
    if (t.timestamp_sec() >= start && t.timestamp_sec() < end) subset.push_back(t);
  }
  SideHistory side_subset;
  for (const SideInputRecord& r : side) {
    if (r.timestamp_sec() >= start && r.timestamp_sec() < end) side_subset.push_back(r);
  }
  if (unusable == nullptr && with_side && side_subset.empty()) unusable = "side input without records in the time range";

  if (c.verbose) {
    for (const std::string& a : flags.Args()) c.desc << a << "\n";
    c.desc << "history:\n" << Str(h) << "side history:\n" << Str(side);
    if (unusable != nullptr) c.desc << "unusable: " << unusable << "\n";
  }
  // What the library computes.
  AccountConfig account;
  account.set_start_base_balance(flags.base);
  account.set_start_quote_balance(flags.quote);
  account.set_base_unit(0.00001f);
  account.set_quote_unit(0.01f);
  for (auto* fee : {account.mutable_market_order_fee_config(), account.mutable_limit_order_fee_config(),
                    account.mutable_stop_order_fee_config()}) {
    fee->set_relative_fee(0.005f);
    fee->set_fixed_fee(0);
    fee->set_minimum_fee(0);
  }
  account.set_market_liquidity(flags.liquidity);
  account.set_max_volume_ratio(flags.ratio);
  EvaluationConfig eval;
  eval.set_start_timestamp_sec(start);
  eval.set_end_timestamp_sec(end);
  eval.set_evaluation_period_months(flags.months);
  eval.set_fast_eval(flags.batch);
  std::unique_ptr<SideInput> side_input;
  if (with_side && !side_subset.empty()) side_input.reset(new SideInput(side_subset));
  std::ostringstream exchange, trader_log;
  EvaluationResult e;
  if (!flags.batch && unusable == nullptr) {
    trader::CsvLogger logger(&exchange, &trader_log);
    e = trader::EvaluateTrader(account, eval, subset, side_input.get(), *SingleTrader(flags.trader), &logger);
    if ((full_exchange && !exchange.str().empty()) || (full_trader && !trader_log.str().empty())) {
      unusable = "log to a full disk";
    }
  }

  const cli::Result r = Call(c, flags);
  PBT_CHECK(!r.crashed, "the tool crashed: " << r.Str());
  if (unusable != nullptr) {
    PBT_CHECK(r.status != 0, "success in spite of unusable input (" << unusable << "): " << r.Str());
    PBT_CHECK(!r.err.empty(), "no error message (" << unusable << "): " << r.Str());
    PBT_CHECK(Rows(r.out).empty() && Scores(r.out, flags.trader + "-trader[").empty(),
              "results of unusable input (" << unusable << "): " << r.Str());
    c.Label(unusable);
    c.nontrivial = true;
    return;
  }
  PBT_CHECK(r.status == 0, "failed: " << r.Str());

  if (flags.batch) {
    std::map<std::string, double> want;
    std::vector<double> best;
    for (const auto& emitter : BatchTraders(flags.trader)) {
      const EvaluationResult e = trader::EvaluateTrader(account, eval, subset, side_input.get(), *emitter, nullptr);
      want[e.name()] = e.score();
      best.push_back(e.score());
    }
    std::sort(best.rbegin(), best.rend());
    const auto got = Scores(r.out, flags.trader + "-trader[");
    PBT_CHECK(got.size() == std::min<size_t>(20, best.size()), got.size() << " scores of " << best.size() << " traders: " << r.Str());
    std::set<std::string> names;
    for (size_t i = 0; i < got.size(); ++i) {
      PBT_CHECK(want.count(got[i].first) == 1, "unknown trader " << got[i].first);
      PBT_CHECK(names.insert(got[i].first).second, "twice: " << got[i].first);
      Printed(got[i].second, want[got[i].first], 1e-5, "score of " + got[i].first);
      Printed(got[i].second, best[i], 1e-5, "score at position " + std::to_string(i));
    }
    c.Label("batches");
    c.nontrivial = best.front() != best.back();
    c.LabelIf(c.nontrivial, "batches with different scores");
    return;
  }
  std::vector<Row> rows = Rows(r.out);
  // The selected time range is printed in the same form, without numbers.
  rows.erase(std::remove_if(rows.begin(), rows.end(), [](const Row& row) { return row.numbers.empty(); }), rows.end());
  PBT_CHECK(static_cast<int>(rows.size()) == e.period_size(),
            rows.size() << " rows instead of " << e.period_size() << ": " << r.Str());
  int orders = 0;
  for (int i = 0; i < e.period_size(); ++i) {
    const auto& p = e.period(i);
    const Row& row = rows[i];
    const std::string at = " of row " + std::to_string(i);
    PBT_CHECK(row.start == Time(p.start_timestamp_sec(), true), "start" << at << " is " << row.start);
    PBT_CHECK(row.end == Time(p.end_timestamp_sec(), true), "end" << at << " is " << row.end);
    PBT_CHECK(row.numbers.size() == 5, row.numbers.size() << " numbers" << at);
    Printed(row.numbers[0], (double(p.final_gain()) - 1) * 100, 0.01 + 2e-5, "trader gain" + at);
    Printed(row.numbers[1], (double(p.base_final_gain()) - 1) * 100, 0.01 + 2e-5, "base gain" + at);
    Printed(row.numbers[2], double(p.final_gain()) / p.base_final_gain(), 0.001, "score" + at);
    Printed(row.numbers[3], p.result().trader_volatility(), 0.001, "trader volatility" + at);
    Printed(row.numbers[4], p.result().base_volatility(), 0.001, "base volatility" + at);
    orders += p.result().total_executed_orders();
  }
  if (log_exchange && !full_exchange) {
    PBT_CHECK(ReadFile(flags.exchange_log) == exchange.str(), "exchange log:\n" << ReadFile(flags.exchange_log).substr(0, 2000)
                                                              << "instead of:\n" << exchange.str().substr(0, 2000));
    c.Label("exchange logs");
  }
  if (log_trader && !full_trader) {
    PBT_CHECK(ReadFile(flags.trader_log) == trader_log.str(), "trader log:\n" << ReadFile(flags.trader_log).substr(0, 2000)
                                                              << "instead of:\n" << trader_log.str().substr(0, 2000));
    c.Label("trader logs");
  }
  c.Label("rows", e.period_size());
  c.LabelIf(e.period_size() > 1, "several periods");
  c.LabelIf(with_side, "with side input");
  c.LabelIf(subset.size() < h.size() && !subset.empty(), "part of the history");
  c.LabelIf(subset.empty(), "no ticks in the time range");
  c.nontrivial = orders > 0;
}
}  // namespace

const pbt::Property pbt::kProperty = {
    "C31", "The trader tool reports exactly what the library computes for its flags",
    "Random history files (plain and compressed), side input, time ranges around the ticks, periods, balances and "
    "other flags, single and batch evaluation; the printed rows, scores and the logs are compared with evaluations by "
    "the library; one of five cases gets unusable input (missing, damaged or empty files, invalid times, logs that "
    "cannot be opened or written to the end, or are combined with periods). Flags with default values are left "
    "out in half of the cases. The tool runs in process (one of 400 cases as the program). "
    "Non-trivial: an order was executed, the scores of a batch differ, or the input was unusable.",
    13000, 600000, Run, 30,
    {"EvaluateTrader, HistorySubset and CsvLogger themselves are decided by other properties.",
     "Start days are at most 28 when there are several periods; some balance is positive; prices are positive and "
     "times increase."}};
