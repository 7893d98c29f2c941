// C27: aggregation to the last N period ticks, and its callbacks.
#include "harness/indicators_ref.h"
#include "indicators/last_n_ohlc_ticks.h"

namespace {
using namespace ind;  // NOLINT

bool SameTick(const OhlcTick& a, const OhlcTick& b) {
  return a.timestamp_sec() == b.timestamp_sec() && a.open() == b.open() && a.high() == b.high() && a.low() == b.low() &&
         a.close() == b.close() && a.volume() == b.volume();
}

void Run(pbt::Case& c) {
  auto& s = c.s;
  const Stream st = GenStream(s, 60, true);
  const int num = s.Length({3, 1, 2, 5, 20, 100});
  PBT_DESC(c, "last " << num << " of " << Str(st));
  trader::LastNOhlcTicks last(num, st.period);
  // Ticks as announced by the callbacks.
  std::deque<OhlcTick> replay;
  int updated = 0, added = 0, removed = 0;
  const bool with_update = !s.Chance(1, 8), with_add = !s.Chance(1, 8), with_remove = !s.Chance(1, 8);
  if (with_update) {
    last.RegisterLastTickUpdatedCallback([&](const OhlcTick& old_tick, const OhlcTick& new_tick) {
      ++updated;
      if (!with_add || !with_remove) return;
      PBT_CHECK(!replay.empty() && SameTick(replay.back(), old_tick),
                "old tick of the update: " << model::Str(old_tick) << ", known "
                                           << (replay.empty() ? "nothing" : model::Str(replay.back())));
      replay.back() = new_tick;
    });
  }
  if (with_add) {
    last.RegisterNewTickAddedCallback([&](const OhlcTick& new_tick) {
      ++added;
      replay.push_back(new_tick);
      PBT_CHECK(!with_remove || static_cast<int>(replay.size()) <= num, "added more than " << num << " ticks");
    });
  }
  if (with_remove) {
    last.RegisterNewTickAddedAndOldestTickRemovedCallback([&](const OhlcTick& removed_tick, const OhlcTick& new_tick) {
      ++removed;
      replay.push_back(new_tick);
      if (with_add && with_update) {
        PBT_CHECK(static_cast<int>(replay.size()) == num + 1, "removed a tick although there were only " << replay.size() - 1);
        PBT_CHECK(SameTick(replay.front(), removed_tick), "removed " << model::Str(removed_tick) << " instead of "
                                                                   << model::Str(replay.front()));
      }
      replay.pop_front();
    });
  }
  PBT_CHECK(last.GetLastNOhlcTicks().empty(), "ticks before the first one");
  Aggregate ref(st.period);
  // Another instance, of another length and period, sees the same ticks.
  const bool company = s.Chance(1, 6);
  trader::LastNOhlcTicks last2(company ? s.Length({4, 1, 2}) : 1,
                               company ? OtherPeriod(s, st) : st.period);
  const bool scaled = company && s.Bool();
  c.LabelIf(company, "with another instance");
  for (const OhlcTick& t : st.ticks) {
    if (company && ref.n() % 50 < 40) last2.Update(Other(t, scaled));
    const int before = ref.n();
    const int updated_before = updated, added_before = added, removed_before = removed;
    last.Update(t);
    ref.Add(t);
    const int grown = ref.n() - before;
    // Kept ticks.
    const auto& got = last.GetLastNOhlcTicks();
    const int m = std::min(ref.n(), num);
    PBT_CHECK(static_cast<int>(got.size()) == m, "keeps " << got.size() << " ticks instead of " << m);
    for (int i = 0; i < m; ++i) {
      const PeriodTick& p = ref.all[ref.n() - m + i];
      const OhlcTick& g = got[i];
      PBT_CHECK(g.timestamp_sec() == p.k * st.period && g.open() == p.open && g.high() == p.high && g.low() == p.low &&
                    g.close() == p.close && std::abs(g.volume() - p.volume) <= 1e-5 * p.volume,
                "tick " << i << " of " << m << " is " << model::Str(g) << " instead of ts=" << p.k * st.period << " open="
                        << p.open << " high=" << p.high << " low=" << p.low << " close=" << p.close << " volume=" << p.volume);
    }
    // Each change is announced exactly once.
    if (with_update) {
      PBT_CHECK(updated - updated_before == (grown == 0 ? 1 : 0), updated - updated_before << " updates announced for " << grown << " new periods");
    }
    const int fits = std::max(0, std::min(ref.n(), num) - std::min(before, num));
    if (with_add) PBT_CHECK(added - added_before == fits, added - added_before << " additions announced instead of " << fits);
    if (with_remove) {
      PBT_CHECK(removed - removed_before == grown - fits, removed - removed_before << " removals announced instead of " << grown - fits);
    }
    if (with_update && with_add && with_remove) {
      PBT_CHECK(replay.size() == got.size(), "announced " << replay.size() << " ticks, kept " << got.size());
      for (size_t i = 0; i < got.size(); ++i) {
        PBT_CHECK(SameTick(replay[i], got[i]), "announced " << model::Str(replay[i]) << ", kept " << model::Str(got[i]));
      }
    }
  }
  c.nontrivial = ref.n() >= 2 && ref.updates + ref.fillers > 0;
  c.Label("updates", ref.updates);
  c.Label("periods without ticks", ref.fillers);
  c.LabelIf(ref.n() > num, "window overflows");
  c.LabelIf(!with_update || !with_add || !with_remove, "without some of the callbacks");
}
}  // namespace

const pbt::Property pbt::kProperty = {
    "C27", "Period aggregation of ticks is exact and announces every change once",
    "Random tick streams (several ticks per period, gaps of up to 40 periods) and numbers of kept ticks; after every "
    "tick the kept ticks are compared with an independent aggregation, and with the ticks reproduced from the "
    "callbacks (any of which may be missing). Non-trivial: at least two periods with an update or a gap.",
    1500000, 15000000, Run, 20, {"Times are not negative and non-decreasing."}};
