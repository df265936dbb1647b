// Task planner: collections, planned sequences, selection and execution.
#include "common.hpp"

#include <deque>

#include <common_robotics_utilities/simple_task_planner.hpp>

using namespace vt;
namespace cru = common_robotics_utilities;
namespace tp = cru::simple_task_planner;

namespace
{
constexpr double kInf = std::numeric_limits<double>::infinity();

// Equality and hash ignore the tag, which tells equal states apart.
struct State
{
  int64_t id = 0;
  int64_t tag = 0;
};
struct StateHash
{
  int64_t modulo = 1000;
  size_t operator()(const State& s) const { return static_cast<size_t>(s.id % modulo); }
};
struct StateEqual
{
  bool operator()(const State& a, const State& b) const { return a.id == b.id; }
};
using States = std::vector<State>;
using Primitive = tp::ActionPrimitiveInterface<State>;
using PrimitivePtr = tp::ActionPrimitiveSharedPtr<State>;
using Collection = tp::ActionPrimitiveCollection<State>;
using PlanResult = tp::TaskStateAstarResult<State>;

struct Outcome { int64_t to; double cost; };

struct World
{
  int64_t n = 0;
  std::vector<bool> goal;
  // [primitive][state]
  std::vector<std::vector<bool>> candidate;
  std::vector<std::vector<std::vector<Outcome>>> outcomes;
  std::vector<double> to_go;

  void Solve()
  {
    to_go.assign(static_cast<size_t>(n), kInf);
    for (int64_t s = 0; s < n; s++) { if (goal[static_cast<size_t>(s)]) { to_go[static_cast<size_t>(s)] = 0; } }
    for (int64_t round = 0; round <= n; round++)
    {
      for (size_t p = 0; p < candidate.size(); p++)
      {
        for (size_t s = 0; s < static_cast<size_t>(n); s++)
        {
          if (!candidate[p][s]) { continue; }
          for (const Outcome& o : outcomes[p][s])
          {
            to_go[s] = std::min(to_go[s], o.cost + to_go[static_cast<size_t>(o.to)]);
          }
        }
      }
    }
  }
  uint64_t Hash() const
  {
    uint64_t h = Combine(static_cast<uint64_t>(n), candidate.size());
    for (size_t p = 0; p < candidate.size(); p++)
    {
      for (size_t s = 0; s < static_cast<size_t>(n); s++)
      {
        h = Combine(h, candidate[p][s] + 2 * goal[s]);
        for (const Outcome& o : outcomes[p][s]) { h = Combine(h, static_cast<uint64_t>(o.to * 4096 + static_cast<int64_t>(o.cost * 4))); }
      }
    }
    return h;
  }
  std::string Describe() const
  {
    std::string d = Str(n, " states");
    for (size_t p = 0; p < candidate.size(); p++)
    {
      for (size_t s = 0; s < static_cast<size_t>(n) && d.size() < 900; s++)
      {
        for (const Outcome& o : outcomes[p][s])
        {
          d += Str(" p", p, ":", s, ">", o.to, "=", o.cost, candidate[p][s] ? "" : "(not a candidate)");
        }
      }
    }
    return d;
  }
};

World MakeWorld(Rng& rng, bool positive)
{
  World w;
  w.n = vt::Large() ? rng.Int(30, 80) : rng.Int(1, 12);
  const size_t primitives = rng.Size(0, 5);
  const double density = rng.Pick(std::vector<double>{0.15, 0.4, 0.8});
  for (int64_t s = 0; s < w.n; s++) { w.goal.push_back(rng.Chance(0.04)); }
  if (rng.Chance(0.8)) { w.goal[rng.Size(0, w.goal.size() - 1)] = true; }
  for (size_t p = 0; p < primitives; p++)
  {
    w.candidate.emplace_back();
    w.outcomes.emplace_back();
    for (int64_t s = 0; s < w.n; s++)
    {
      w.candidate[p].push_back(rng.Chance(density));
      w.outcomes[p].emplace_back();
      for (int64_t k = rng.Int(0, 3); k > 0; k--)
      {
        const double cost = static_cast<double>(rng.Int(positive ? 1 : 0, rng.Chance(0.3) ? 200 : 8)) * 0.25;
        w.outcomes[p].back().push_back({rng.Int(0, w.n - 1), cost});
      }
    }
  }
  w.Solve();
  return w;
}

struct Event
{
  enum Kind { OUTCOME, PRE, EXECUTE, POST } kind;
  State state;
  std::string name;
  States states;
  int64_t index = -1;
};

class WorldPrimitive : public Primitive
{
public:
  WorldPrimitive(const World& w, size_t p, const std::string& name,
                 const std::function<States(size_t, const State&)>& execute, std::vector<Event>* log)
      : w_(w), p_(p), name_(name), execute_(execute), log_(log) {}
  bool IsCandidate(const State& s) const override { return w_.candidate[p_][static_cast<size_t>(s.id)]; }
  tp::OutcomesWithCosts<State> GetOutcomes(const State& s) const override
  {
    VT_EXPECT(IsCandidate(s), "task-outcomes-of-non-candidate", name_, " asked for state ", s.id);
    tp::OutcomesWithCosts<State> r;
    for (const Outcome& o : w_.outcomes[p_][static_cast<size_t>(s.id)]) { r.emplace_back(State{o.to, 0}, o.cost); }
    return r;
  }
  States Execute(const State& s) override
  {
    log_->push_back({Event::EXECUTE, s, name_, {}, -1});
    return execute_(p_, s);
  }
  const std::string& Name() const override { return name_; }

private:
  const World& w_;
  size_t p_;
  std::string name_;
  std::function<States(size_t, const State&)> execute_;
  std::vector<Event>* log_;
};

// A plan must be a real, optimal sequence from one of the given states.
void CheckPlan(const World& w, const States& starts, const std::vector<size_t>& installed, const PlanResult& plan)
{
  double best = kInf;
  for (const State& s : starts) { best = std::min(best, w.to_go[static_cast<size_t>(s.id)]); }
  VT_CHECK(plan.PathCost() == best, "task-plan-not-optimal", "cost ", plan.PathCost(), " optimum ", best, " ", w.Describe());
  if (std::isinf(best))
  {
    VT_CHECK(plan.Path().empty(), "task-plan-for-unsolvable", plan.Path().size());
    Count("unsolvable_plans");
    return;
  }
  VT_CHECK(!plan.Path().empty(), "task-plan-empty", "cost ", plan.PathCost());
  bool from_start = false;
  for (const State& s : starts) { from_start = from_start || s.id == plan.Path()[0].Outcome().id; }
  VT_CHECK(from_start && plan.Path()[0].PrimitiveIndex() < 0, "task-plan-start", plan.Path()[0].Outcome().id);
  // The cheapest way through the listed primitives costs what was reported.
  double total = 0;
  for (size_t i = 1; i < plan.Path().size(); i++)
  {
    const int64_t index = plan.Path()[i].PrimitiveIndex();
    VT_CHECK(index >= 0 && index < static_cast<int64_t>(installed.size()), "task-plan-primitive-index", index);
    const size_t p = installed[static_cast<size_t>(index)];
    const size_t from = static_cast<size_t>(plan.Path()[i - 1].Outcome().id);
    VT_CHECK(w.candidate[p][from], "task-plan-uses-non-candidate", "primitive ", p, " in state ", from);
    double step = kInf;
    for (const Outcome& o : w.outcomes[p][from])
    {
      if (o.to == plan.Path()[i].Outcome().id) { step = std::min(step, o.cost); }
    }
    VT_CHECK(std::isfinite(step), "task-plan-impossible-step", from, " to ", plan.Path()[i].Outcome().id, " by ", p);
    total += step;
  }
  VT_CHECK(total == best, "task-plan-cost-mismatch", total, " reported ", best);
  VT_CHECK(w.goal[static_cast<size_t>(plan.Path().back().Outcome().id)], "task-plan-not-complete",
           plan.Path().back().Outcome().id);
  Count("plans");
  Count("plan_steps", plan.Path().size() - 1);
}

void Plans(Rng& rng, uint64_t)
{
  const bool bounded = rng.Chance(0.5);
  World w = MakeWorld(rng, !bounded);
  // Installed primitives, in a random order; the others are not available.
  std::vector<size_t> installed;
  for (size_t p = 0; p < w.candidate.size(); p++) { installed.push_back(p); }
  rng.Shuffle(installed);
  std::vector<Event> log;
  // Execution: what was planned, or (a limited number of times) something else.
  int64_t surprises = rng.Chance(0.2) ? rng.Int(5, 25) : rng.Int(0, 4), tags = 0;
  bool return_nothing = rng.Chance(0.05);
  const bool stuck = rng.Chance(0.3);  // surprises leave the state as it was
  State expected{-1, 0};
  const auto execute = [&](size_t, const State& from) -> States
  {
    States r;
    if (surprises > 0 && rng.Chance(0.5))
    {
      surprises--;
      if (return_nothing) { return r; }
      if (stuck)
      {
        r.push_back(State{from.id, ++tags});
        Count("no_progress_executions");
        return r;
      }
      for (int64_t k = rng.Int(1, 4); k > 0; k--) { r.push_back(State{rng.Int(0, w.n - 1), ++tags}); }
      if (rng.Chance(0.3)) { r.push_back(State{r[0].id, ++tags}); }
    }
    else { r.push_back(State{expected.id, ++tags}); }
    return r;
  };
  std::vector<std::string> messages;
  Collection collection([&](const std::string& m) { messages.push_back(m); });
  for (size_t i = 0; i < installed.size(); i++)
  {
    const std::string name = Str("primitive ", installed[i]);
    if (rng.Chance(0.5))
    {
      collection.RegisterPrimitive(std::make_shared<WorldPrimitive>(w, installed[i], name, execute, &log));
    }
    else
    {
      const size_t p = installed[i];
      const auto inner = std::make_shared<WorldPrimitive>(w, p, name, execute, &log);
      collection.RegisterPrimitive(std::make_shared<tp::ActionPrimitiveWrapper<State>>(
          [inner](const State& s) { return inner->IsCandidate(s); },
          [inner](const State& s) { return inner->GetOutcomes(s); },
          [inner](const State& s) { return inner->Execute(s); }, name));
    }
  }
  const auto complete = [&](const State& s) { return w.goal[static_cast<size_t>(s.id)]; };
  tp::StateHeuristicFunction<State> heuristic;
  if (rng.Chance(0.6))
  {
    const double share = rng.Pick(std::vector<double>{0.25, 0.5, 1.0});
    heuristic = [&w, share](const State& s) { return share * std::min(1e6, w.to_go[static_cast<size_t>(s.id)]); };
  }
  const StateHash hash{rng.Int(1, 20)};
  const StateEqual equal;
  States starts;
  for (int64_t k = rng.Chance(0.05) ? 0 : rng.Int(1, 4); k > 0; k--) { starts.push_back(State{rng.Int(0, w.n - 1), ++tags}); }
  Nontrivial(Combine(w.Hash(), starts.size()));
  PlanResult plan;
  const Thrown planned = Catch([&]
  {
    plan = tp::PlanTaskStateSequence<State, States, StateHash, StateEqual>(collection, complete, starts, heuristic, hash, equal);
  });
  VT_CHECK(planned == (starts.empty() ? Thrown::INVALID_ARGUMENT : Thrown::NONE), "task-plan-exception", LastWhat());
  if (!starts.empty()) { CheckPlan(w, starts, installed, plan); }

  const int32_t limit = bounded ? static_cast<int32_t>(rng.Int(0, 8)) : -1;
  const auto on_pre = [&](const State& s, const PrimitivePtr& p, const PlanResult& plan)
  {
    log.push_back({Event::PRE, s, p->Name(), {}, -1});
    expected = plan.Path().at(1).Outcome();
    VT_EXPECT(p == collection.Primitives().at(static_cast<size_t>(plan.Path().at(1).PrimitiveIndex())),
              "task-wrong-primitive-announced", p->Name());
  };
  const auto on_post = [&](const States& out) { log.push_back({Event::POST, State(), "", out, -1}); };
  std::string next_name;
  const auto on_outcome = [&](const States& out, int64_t index, const PlanResult& plan)
  {
    log.push_back({Event::OUTCOME, State(), "", out, index});
    CheckPlan(w, out, installed, plan);
    VT_CHECK(index >= 0 && index < static_cast<int64_t>(out.size()) &&
                 out[static_cast<size_t>(index)].id == plan.Path().at(0).Outcome().id,
             "task-selected-outcome-not-planned", index);
    if (plan.Path().size() > 1)
    {
      log.back().name = collection.Primitives().at(static_cast<size_t>(plan.Path()[1].PrimitiveIndex()))->Name();
    }
  };
  States trace;
  const bool single = starts.size() == 1 && rng.Chance(0.5);
  if (!heuristic || rng.Chance(0.9))
  {
    // Execution needs the callbacks to learn what was expected.
    const Thrown th = Catch([&]
    {
      trace = single ? tp::PerformSingleTaskExecution<State, States, StateHash, StateEqual>(
                           collection, complete, starts[0], limit, heuristic, hash, equal, on_pre, on_post, on_outcome)
                     : tp::PerformSingleTaskExecution<State, States, StateHash, StateEqual>(
                           collection, complete, starts, limit, heuristic, hash, equal, on_pre, on_post, on_outcome);
    });
    // Replay the log against the specification.
    States current = starts, want;
    size_t at = 0, executions = 0;
    Thrown expect_throw = Thrown::NONE;
    const auto next = [&](Event::Kind k) -> const Event&
    {
      VT_CHECK(at < log.size() && log[at].kind == k, "task-callback-order", "event ", at, " of ", log.size());
      return log[at++];
    };
    while (limit < 0 || static_cast<int32_t>(executions) < limit)
    {
      if (current.empty()) { expect_throw = Thrown::INVALID_ARGUMENT; break; }
      double best = kInf;
      for (const State& s : current) { best = std::min(best, w.to_go[static_cast<size_t>(s.id)]); }
      if (std::isinf(best)) { expect_throw = Thrown::RUNTIME_ERROR; break; }
      const Event& outcome = next(Event::OUTCOME);
      VT_CHECK(outcome.states.size() == current.size(), "task-outcomes-changed", outcome.states.size());
      for (size_t i = 0; i < current.size(); i++)
      {
        VT_CHECK(outcome.states[i].id == current[i].id && outcome.states[i].tag == current[i].tag, "task-outcomes-changed", i);
      }
      const State chosen = current[static_cast<size_t>(outcome.index)];
      VT_CHECK(w.to_go[static_cast<size_t>(chosen.id)] == best, "task-outcome-not-easiest", chosen.id, " costs ",
               w.to_go[static_cast<size_t>(chosen.id)], " best ", best, " ", w.Describe());
      want.push_back(chosen);
      if (w.goal[static_cast<size_t>(chosen.id)])
      {
        VT_CHECK(outcome.name.empty(), "task-continues-after-completion", outcome.name);
        Count("completed_tasks");
        break;
      }
      const Event& pre = next(Event::PRE);
      const Event& ex = next(Event::EXECUTE);
      const Event& post = next(Event::POST);
      VT_CHECK(pre.name == outcome.name && ex.name == outcome.name, "task-wrong-primitive-executed", pre.name, " ", ex.name,
               " planned ", outcome.name);
      VT_CHECK(pre.state.id == chosen.id && pre.state.tag == chosen.tag && ex.state.id == chosen.id &&
                   ex.state.tag == chosen.tag,
               "task-executed-from-wrong-state", ex.state.id, "/", ex.state.tag, " chosen ", chosen.id, "/", chosen.tag);
      executions++;
      current = post.states;
    }
    VT_CHECK(at == log.size(), "task-extra-callbacks", log.size() - at);
    VT_CHECK(th == expect_throw, "task-execution-result", static_cast<int>(th), " expected ", static_cast<int>(expect_throw),
             " ", LastWhat());
    if (th == Thrown::NONE)
    {
      VT_CHECK(trace.size() == want.size(), "task-trace", trace.size(), " expected ", want.size());
      for (size_t i = 0; i < want.size(); i++)
      {
        VT_CHECK(trace[i].id == want[i].id && trace[i].tag == want[i].tag, "task-trace", "entry ", i);
      }
    }
    size_t performing = 0;
    for (const std::string& m : messages) { performing += m.find("Performing") != std::string::npos; }
    VT_CHECK(performing == executions, "task-execution-log", performing, " messages for ", executions);
    Count("executions", executions);
    Count(th == Thrown::NONE ? "runs" : "failed_runs");
  }
}

// The chosen outcome and primitive, asked for directly.
void Select(Rng& rng, uint64_t)
{
  World w = MakeWorld(rng, false);
  std::vector<Event> log;
  Collection collection;
  std::vector<size_t> installed;
  for (size_t p = 0; p < w.candidate.size(); p++)
  {
    installed.push_back(p);
    collection.RegisterPrimitive(std::make_shared<WorldPrimitive>(w, p, Str(p), [](size_t, const State&) { return States(); }, &log));
  }
  States outcomes;
  for (int64_t k = rng.Int(0, 5); k > 0; k--) { outcomes.push_back(State{rng.Int(0, w.n - 1), k}); }
  double best = kInf;
  for (const State& s : outcomes) { best = std::min(best, w.to_go[static_cast<size_t>(s.id)]); }
  std::unique_ptr<tp::NextPrimitiveToExecute<State>> next;
  const Thrown th = Catch([&]
  {
    next.reset(new tp::NextPrimitiveToExecute<State>(tp::GetNextPrimitiveToExecute<State, States, StateHash, StateEqual>(
        collection, [&](const State& s) { return w.goal[static_cast<size_t>(s.id)]; }, outcomes)));
  });
  const Thrown expect = outcomes.empty() ? Thrown::INVALID_ARGUMENT : std::isinf(best) ? Thrown::RUNTIME_ERROR : Thrown::NONE;
  VT_CHECK(th == expect, "task-select-result", static_cast<int>(th), " expected ", static_cast<int>(expect), " ", LastWhat());
  VT_CHECK(log.empty(), "task-select-executes", log.size());
  Count("selections");
  Nontrivial(Combine(w.Hash(), outcomes.size() + 17));
  if (th != Thrown::NONE) { return; }
  CheckPlan(w, outcomes, installed, next->PlanningResult());
  const int64_t index = next->SelectedOutcomeIndex();
  VT_CHECK(index >= 0 && index < static_cast<int64_t>(outcomes.size()) &&
               w.to_go[static_cast<size_t>(outcomes[static_cast<size_t>(index)].id)] == best,
           "task-outcome-not-easiest", index);
  const auto& path = next->PlanningResult().Path();
  VT_CHECK(path[0].Outcome().id == outcomes[static_cast<size_t>(index)].id, "task-selected-outcome-not-planned", index);
  if (path.size() == 1) { VT_CHECK(next->ActionPrimitive() == nullptr, "task-primitive-after-completion", ""); }
  else
  {
    VT_CHECK(next->ActionPrimitive() == collection.Primitives().at(static_cast<size_t>(path[1].PrimitiveIndex())),
             "task-wrong-primitive-selected", "");
  }
}

// The collection is an ordered set of distinct names.
void Registry(Rng& rng, uint64_t)
{
  Collection collection;
  std::vector<std::pair<std::string, PrimitivePtr>> model;
  World w;
  std::vector<Event> log;
  uint64_t h = 0;
  for (int64_t step = rng.Int(1, 40); step > 0; step--)
  {
    // Some names differ only after a null character.
    const std::string name = rng.Chance(0.2) ? "z" + std::string(1, '\0') + Str(rng.Int(0, 3)) : Str("p", rng.Int(0, 9));
    const auto has = [&](const std::string& n) { return std::any_of(model.begin(), model.end(), [&](const auto& m) { return m.first == n; }); };
    const int64_t op = rng.Int(0, 9);
    h = Combine(h, static_cast<uint64_t>(op) * 31 + HashStr(name));
    if (op <= 5)
    {
      const auto p = std::make_shared<WorldPrimitive>(w, 0, name, [](size_t, const State&) { return States(); }, &log);
      const Thrown th = Catch([&] { collection.RegisterPrimitive(p); });
      VT_CHECK(th == (has(name) ? Thrown::INVALID_ARGUMENT : Thrown::NONE), "task-register-result", name, " ", LastWhat());
      if (!has(name)) { model.emplace_back(name, p); }
      else { Count("duplicates_refused"); }
    }
    else if (op <= 7)
    {
      collection.UnregisterPrimitiveByName(name);
      model.erase(std::remove_if(model.begin(), model.end(), [&](const auto& m) { return m.first == name; }), model.end());
    }
    else if (op == 8)
    {
      std::unordered_set<std::string> names;
      for (int64_t k = rng.Int(0, 5); k > 0; k--) { names.insert(Str("p", rng.Int(0, 12))); }
      collection.UnregisterPrimitivesByName(names);
      model.erase(std::remove_if(model.begin(), model.end(), [&](const auto& m) { return names.count(m.first) > 0; }), model.end());
    }
    else if (rng.Chance(0.2))
    {
      collection.ClearPrimitives();
      model.clear();
    }
    VT_CHECK(collection.Primitives().size() == model.size(), "task-registry-size", collection.Primitives().size(), " ", model.size());
    for (size_t i = 0; i < model.size(); i++)
    {
      VT_CHECK(collection.Primitives()[i] == model[i].second, "task-registry-order", i);
    }
    Count("registry_steps");
  }
  Nontrivial(h);
}
}  // namespace

int main(int argc, char** argv)
{
  return vt::Main(argc, argv, {{"plans", 20000, 1500000, Plans}, {"plans-large", 200, 10000, vt::LargeCase<Plans>}, {"select", 8000, 500000, Select}, {"registry", 1000, 30000, Registry}});
}
