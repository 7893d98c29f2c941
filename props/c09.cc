// C09: side input alignment.
#include "harness/sim.h"

namespace {
using namespace sim;  // NOLINT

void Run(pbt::Case& c) {
  auto& s = c.s;
  const int64_t start = s.Bool() ? pbt::GenEpoch(s) : 1000;
  HistoryOptions opt;
  opt.start = start;
  opt.min_ticks = 1;
  opt.max_ticks = 60;
  opt.giant = 256;
  opt.step = s.Pick({60, 1, 300, 86400});
  Env env;
  env.bu = env.qu = 0.125;
  const OhlcHistory h = GenOhlcHistory(s, env, opt);
  const bool with_side = !s.Chance(1, 16);
  SideHistory side;
  if (with_side) side = GenSideHistory(s, start, h.back().timestamp_sec(), opt.step, 60);
  if (with_side && s.Chance(1, 24)) {
    // The first record is very old.
    const int64_t old = s.Int(1, 1000);
    if (s.Bool()) side.erase(side.begin(), side.end() - s.Int(1, side.size()));
    if (old < side.front().timestamp_sec()) {
      SideInputRecord r = side.front();
      r.set_timestamp_sec(old);
      side.insert(side.begin(), r);
      c.Label("very old record");
    }
  }
  if (with_side && s.Chance(1, 1 << 13)) {
    // There are many records before.
    const int64_t first = side.front().timestamp_sec();
    const int64_t many = std::min<int64_t>(first - 1, s.Pick({70000, 33000, 20000}));
    SideHistory before;
    for (int64_t i = 0; i < many; ++i) {
      before.push_back(side.front());
      before.back().set_timestamp_sec(first - many + i);
      for (int k = 0; k < before.back().signal_size(); ++k) before.back().set_signal(k, i * 4 + k / 8.0f);
    }
    side.insert(side.begin(), before.begin(), before.end());
    c.LabelIf(many >= 20000, "many records");
  }
  PBT_DESC(c, "history:\n" << Str(h) << "side:\n" << Str(side));
  std::unique_ptr<SideInput> input;
  if (with_side) input.reset(new SideInput(side));

  if (with_side) {
    PBT_CHECK(input->GetNumberOfRecords() == static_cast<int>(side.size()), "number of records");
    PBT_CHECK(input->GetNumberOfSignals() == side.front().signal_size(), "number of signals");
    // Direct lookups.
    const int lookups = s.Size(1, 40);
    for (int i = 0; i < lookups; ++i) {
      int64_t ts = 0;
      const auto& r = side[s.Draw(side.size())];
      switch (s.Draw(4)) {
        case 0: ts = r.timestamp_sec(); break;
        case 1: ts = r.timestamp_sec() - 1; break;
        case 2: ts = r.timestamp_sec() + 1; break;
        default: ts = start + s.Int(-opt.step * 4, 2 * (h.back().timestamp_sec() - start) + opt.step * 8);
      }
      int want = -1;
      for (size_t k = 0; k < side.size(); ++k) {
        if (side[k].timestamp_sec() <= ts) want = k;
      }
      const int got = input->GetSideInputIndex(ts);
      PBT_CHECK(got == want, "index at " << ts << " is " << got << " instead of " << want);
      // Any hint that is not after the time.
      const int hint = s.Chance(1, 2) ? want - static_cast<int>(s.Draw(4)) : s.Int(-1, want);
      const int hinted = input->GetSideInputIndex(ts, std::max(-1, hint));
      PBT_CHECK(hinted == want, "index at " << ts << " with hint " << hint << " is " << hinted
                                            << " instead of " << want);
      c.LabelIf(want >= 0 && hint >= 0 && want - hint >= 2, "hint is at least two records behind");
      if (got >= 0) {
        PBT_CHECK(input->GetSideInputTimestamp(got) == side[got].timestamp_sec(), "timestamp of record " << got);
        std::vector<float> signals = {-7.0f};
        input->GetSideInputSignals(got, signals);
        std::vector<float> expected = {-7.0f};
        for (int k = 0; k < side[got].signal_size(); ++k) {
          PBT_CHECK(input->GetSideInputSignal(got, k) == side[got].signal(k), "signal of record " << got);
          expected.push_back(side[got].signal(k));
        }
        PBT_CHECK(signals == expected, "signals of record " << got << " at " << ts);
      }
    }
  }
  // What the trader gets.
  Events events;
  Script none;
  ScriptTrader trader(&none, &events, nullptr);
  AccountConfig config;
  config.set_start_base_balance(1);
  trader::ExecuteTrader(config, h.begin(), h.end(), input.get(), s.Bool(), trader, nullptr);
  int with_signals = 0, without = 0, changes = 0;
  std::vector<float> last;
  size_t next = 0;
  for (const OhlcTick& t : h) {
    if (t.volume() == 0) continue;
    PBT_CHECK(next < events.size(), "missing update of the trader at " << t.timestamp_sec());
    const Event& e = events[next++];
    PBT_CHECK(SameTick(e.tick, t), "unexpected tick of an update: " << e.Str());
    const std::vector<float> want = ReferenceSignals(with_side ? &side : nullptr, t.timestamp_sec());
    std::ostringstream os;
    for (float x : want) os << x << " ";
    PBT_CHECK(e.signals == want, "signals at " << e.Str() << " instead of [" << os.str() << "]");
    (want.empty() ? without : with_signals)++;
    if (want != last) ++changes;
    last = want;
  }
  c.nontrivial = with_side && with_signals > 0 && changes > 1;
  c.Label("updates with signals", with_signals);
  c.Label("updates without signals", without);
}
}  // namespace

const pbt::Property pbt::kProperty = {
    "C09", "Side input delivers the latest record at or before the tick, and its age",
    "Random side history and lookups (at, just before and just after records, with and without valid "
    "hints) compared with a linear search; random tick history executed by a trader that records its "
    "signals; also records many years old, long quiet runs of ticks, and tens of thousands of records. Non-trivial: the trader got signals that changed.",
    600000, 20000000, Run, 20, {"Timestamps of records are positive and increasing; hints are not after the time."}};
