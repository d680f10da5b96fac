// property: C32
// sources: src/ndt_mapper.cpp src/graph.cpp src/scan.cpp src/constraint.cpp src/ceres_solver.cpp src/particle_filter.cpp src/motion_model.cpp
// cases: 10
// branch_timeout: 0.1
// bounds: maps of three to five scans, with any corrections up to 1 m and 1 rad in one of them; loading before the first scan, while localizing, between turns of the loop closing thread, while that thread is matching, after its optimizations, after matches of any score between -1 and -0.75; saving in between; loading combined with enabling or disabling; the localization map after mapping, loop closing, optimization and loads
// outside: longer histories; files that cannot be read or written
#include "mapper_common.h"

static Pose2d correction;
static double local_score = -0.5, loop_score = -0.125;
struct Event { size_t scan; double x; std::vector<Pose2d> map; };
static std::vector<Event> events;
static std::function<void()> while_matching;

static void save_b()
{
  ndt_2d::Graph g(false);
  for (size_t i = 0; i < 4; ++i)
  {
    auto s = std::make_shared<ndt_2d::Scan>(i);
    s->setPose(Pose2d(50 + 0.75 * i, i == 1 ? vs_real("by", 6.75, 7.25) : 7, 0.25));
    s->setPoints(std::vector<Point>(i + 1, Point(1, 1)));
    g.scans.push_back(s);
    if (i == 0) continue;
    auto l = std::make_shared<ndt_2d::Constraint>();
    l->begin = i - 1;
    l->end = i;
    l->transform << 0.75, 0, 0;
    l->information = Eigen::Matrix3d::Identity();
    l->switchable = false;
    g.constraints.push_back(l);
  }
  g.save("b");
}
static void is_same(const ndt_2d::Graph & g, const ndt_2d::Graph & h, const char * id)
{
  vs_check(g.scans.size() == h.scans.size() && g.constraints.size() == h.constraints.size(), id);
  for (size_t i = 0; i < g.scans.size(); ++i)
  {
    const Pose2d p = g.scans[i]->getPose(), q = h.scans[i]->getPose();
    vs_check(g.scans[i]->getId() == h.scans[i]->getId() && g.scans[i]->getPoints().size() == h.scans[i]->getPoints().size(), id);
    vs_check_same(p.x, q.x, id);
    vs_check_same(p.y, q.y, id);
    vs_check_same(p.theta, q.theta, id);
  }
  for (size_t i = 0; i < g.constraints.size(); ++i)
  {
    const auto & c = g.constraints[i], & d = h.constraints[i];
    vs_check(c->begin == d->begin && c->end == d->end && c->switchable == d->switchable, id);
    for (int k = 0; k < 3; ++k) vs_check_same(c->transform(k), d->transform(k), id);
  }
}
static void is_same(const std::vector<Pose2d> & map, const ndt_2d::Graph & g, const char * id)
{
  vs_check(map.size() == g.scans.size(), id);
  for (size_t i = 0; i < map.size(); ++i)
  {
    const Pose2d p = g.scans[i]->getPose();
    vs_check_close(map[i].x, p.x, 1e-9, id);
    vs_check_close(map[i].y, p.y, 1e-9, id);
    vs_check_close(map[i].theta, p.theta, 1e-9, id);
  }
}
static double odom_x = 0;
static void scan() { odom_x += 0.75; give_scan(half(odom_x, 0, 0)); }

int main()
{
  const int c = vs_case();
  set.rolling = 1;
  set.search = 10;
  set.node_limit = c == 4 || c == 7 ? 0 : 25;
  on_match = [&](const Recorder & m, const ScanPtr & s, Pose2d & p, Eigen::Matrix3d & cov)
  {
    cov = Eigen::Vector3d(0.25, 0.25, 0.5).asDiagonal();
    p = correction;
    if (m.name == "local_scan_matcher") return local_score;
    events.push_back({s->getId(), s->getPose().x, m.at});
    if (while_matching) while_matching();
    return loop_score;
  };
  struct Term { double at[6]; };
  std::vector<Term> terms;
  bool solved = false;
  double push = 0;
  on_solve = [&](ceres::Problem * p, ceres::Solver::Summary * s)
  {
    solved = true;
    terms.clear();
    for (auto & b : p->blocks)
    {
      Term t;
      for (int i = 0; i < 6; ++i) t.at[i] = *b->params[i];
      terms.push_back(t);
    }
    s->usable = push != 0;
    if (s->usable) for (auto q : p->params) if (!p->IsParameterBlockConstant(q)) *q += push;
  };
  save_b();
  ndt_2d::Graph b(false, "b");
  if (c == 0)
  {
    // save and load
    auto node = start_node();
    scan();
    correction = Pose2d(vs_real("cx", -1, 1), vs_real("cy", -1, 1), vs_real("ct", -1, 1));
    scan();
    configure(Config::Request::SAVE_TO_FILE, "f");
    auto then = graph_now();
    is_same(ndt_2d::Graph(false, "f"), *then, "saves the map to the named file");
    scan();
    vs_check(graph_now()->scans.size() == 3, "saving changes nothing");
    configure(Config::Request::LOAD_FROM_FILE, "b");
    is_same(*graph_now(), b, "loads the map from the named file");
    configure(Config::Request::LOAD_FROM_FILE, "f");
    is_same(*graph_now(), *then, "saving then loading restores the map");
    vs_check(ndt_2d::Graph(false, "b").scans.size() == 4, "a file is left as it is");
    drawn.clear();
    one_round();
    vs_check(drawn.size() == 1 && drawn[0].size() == 2, "the loaded map is published");
  }
  else if (c == 1)
  {
    // combined actions
    const bool on = vs_bool("on");
    set.mapping = !on;
    auto node = start_node();
    configure(Config::Request::LOAD_FROM_FILE | (on ? Config::Request::ENABLE_MAPPING : Config::Request::DISABLE_MAPPING), "b");
    is_same(*graph_now(), b, "loads the map from the named file");
    scan();
    vs_check(events.empty() && graph_now()->scans.size() == 4, "a loaded map must be localized in first");
    give_pose(half(50, 7.5, 0.125));
    scan();
    vs_check(graph_now()->scans.size() == (on ? 6 : 4), "mapping is as it was asked for");
    vs_check(events.size() == (on ? 0 : 1), "mapping is as it was asked for");
    configure(Config::Request::SAVE_TO_FILE | (on ? Config::Request::DISABLE_MAPPING : Config::Request::ENABLE_MAPPING), "f");
    is_same(ndt_2d::Graph(false, "f"), *graph_now(), "saves the map to the named file");
    vs_check(graph_now()->scans.size() == (on ? 6 : 4), "saving changes nothing");
  }
  else if (c == 2)
  {
    // localization map, load while localizing
    ndt_2d::Graph a(false);
    for (int i = 0; i < 3; ++i)
    {
      auto s = std::make_shared<ndt_2d::Scan>(i);
      s->setPose(Pose2d(vs_real("ax", -10, 10), i, 0));
      s->setPoints({Point(1, 1)});
      a.scans.push_back(s);
    }
    a.save("a");
    set.mapping = false;
    const bool late = vs_bool("late");
    if (!late) set.map_file = "a";
    auto node = start_node();
    if (late) configure(Config::Request::LOAD_FROM_FILE, "a");
    for (int k = 0; k < 3; ++k)
    {
      give_pose(half(1, 2, 0.25));
      events.clear();
      scan();
      vs_check(events.size() == 1, "localizes");
      is_same(events[0].map, k == 1 ? b : a, "localizes in the loaded map");
      scan();
      vs_check(events.size() == 2, "localizes");
      is_same(events[1].map, k == 1 ? b : a, "localizes in the loaded map");
      configure(Config::Request::LOAD_FROM_FILE, k == 0 ? "b" : "a");
    }
  }
  else if (c == 9)
  {
    // the map grows between two times it is localized in
    set.mapping = false;
    set.map_file = "b";
    set.search = 0.001;
    auto node = start_node();
    for (int k = 0; k < 2; ++k)
    {
      give_pose(half(51, vs_real("py", 6, 8), 0.25));
      events.clear();
      scan();
      vs_check(events.size() == 1, "localizes");
      is_same(events[0].map, *graph_now(), "localizes in the whole map as it is now");
      configure(Config::Request::ENABLE_MAPPING);
      scan();
      vs_check(graph_now()->scans.size() == 5 + static_cast<size_t>(k), "mapping goes on");
      configure(Config::Request::DISABLE_MAPPING);
    }
  }
  else if (c == 3 || c == 4)
  {
    // localization map after mapping, loop closing and optimization
    loop_score = -0.875;
    push = c == 4 ? 0.125 : 0;
    auto node = start_node();
    scan();
    correction = Pose2d(vs_real("cx", 0, 0.125), vs_real("cy", -0.125, 0.125), 0.0625);
    int step = 0;
    run_loop_thread([&]()
    {
      ++step;
      if (step == 1) { scan(); scan(); scan(); return true; }
      if (step == 2)
      {
        vs_check(solved == (c == 4) && graph_now()->constraints.size() > 3, "loops are closed");
        configure(Config::Request::DISABLE_MAPPING);
        give_pose(half(1, 2, 0.25));
        events.clear();
        scan();
        vs_check(events.size() == 1, "localizes");
        is_same(events[0].map, *graph_now(), "localizes in the whole map as it is now");
        configure(Config::Request::ENABLE_MAPPING);
        scan();
        return true;
      }
      if (step == 3)
      {
        // more loops were closed meanwhile
        configure(Config::Request::DISABLE_MAPPING);
        give_pose(half(1, 2, 0.25));
        events.clear();
        scan();
        vs_check(events.size() == 1, "localizes");
        is_same(events[0].map, *graph_now(), "localizes in the whole map as it is now");
        vs_reach("again");
      }
      return false;
    });
  }
  else if (c == 5 || c == 6 || c == 7)
  {
    // loop closing starts over with a loaded map (5), also when it is loaded during a match (6), and so does the optimizer (7)
    const bool spoil = c == 5;
    auto node = start_node();
    scan();
    if (spoil) local_score = vs_real("local", -1, -0.75);
    int step = 0;
    if (c == 7) loop_score = -0.875;
    if (c == 6) correction = Pose2d(0.25, 0, 0);
    run_loop_thread([&]()
    {
      ++step;
      if (step == 1)
      {
        scan(); scan(); scan();
        if (c == 6)
        {
          loop_score = -0.875;
          while_matching = []()
          {
            // the first match; later ones are in the new map
            while_matching = nullptr;
            configure(Config::Request::LOAD_FROM_FILE, "b");
            events.clear();
            loop_score = -0.125;
          };
          // that match is still good
          const double good = -0.875;
          on_match = [good](const Recorder & m, const ScanPtr & s, Pose2d & p, Eigen::Matrix3d & cov)
          {
            cov = Eigen::Vector3d(0.25, 0.25, 0.5).asDiagonal();
            p = correction;
            if (m.name == "local_scan_matcher") return local_score;
            const bool first = while_matching ? true : false;
            if (!first) events.push_back({s->getId(), s->getPose().x, m.at});
            else while_matching();
            return first ? good : loop_score;
          };
        }
        return true;
      }
      if (step == 2 && c != 6)
      {
        vs_check(events.size() > 0, "the first map is examined");
        if (c == 7) vs_check(solved && terms.size() == graph_now()->constraints.size(), "the first map is optimized");
        configure(Config::Request::LOAD_FROM_FILE, "b");
        // better than the score that is typical at the start, worse than that of the first map
        if (spoil) loop_score = -0.5 - 1.0 / 128;
        events.clear();
        solved = false;
        return true;
      }
      if (step == (c == 6 ? 2 : 3))
      {
        if (c == 6) { vs_check(!while_matching, "the first map was being examined"); is_same(*graph_now(), b, "nothing of the first map gets into the loaded one"); return true; }
      }
      if (step < 4) return true;
      // scans 2 and 3 of the loaded map, one after the other
      size_t two = 0, three = 0;
      for (auto & e : events)
      {
        if (e.scan == 2) ++two;
        else if (e.scan == 3) ++three;
        vs_check(e.scan == 2 || e.scan == 3, "only scans beyond the window are examined");
        vs_check(e.x > 40, "only scans of the loaded map are examined");
        for (auto & p : e.map) vs_check(p.x > 40, "only matched against the loaded map");
      }
      vs_check(two == 1 && three == 2, "the loaded map is examined from its start");
      size_t loops = 0;
      auto g = graph_now();
      for (auto & l : g->constraints) if (l->switchable) ++loops;
      vs_check(g->constraints.size() == 3 + loops, "the constraints of the loaded map are kept");
      if (spoil) { vs_reach("fresh"); vs_check(loops == 3, "what is typical is not taken over from the previous map"); }
      if (c == 6) vs_check(loops == 0, "nothing of the first map gets into the loaded one");
      if (c == 7)
      {
        vs_check(solved, "the loaded map is optimized");
        vs_check(terms.size() == g->constraints.size(), "only the loaded map is optimized");
        for (size_t i = 0; i < terms.size(); ++i)
        {
          const Pose2d p = g->scans[g->constraints[i]->begin]->getPose(), q = g->scans[g->constraints[i]->end]->getPose();
          vs_check(terms[i].at[0] == p.x && terms[i].at[1] == p.y && terms[i].at[2] == p.theta &&
                   terms[i].at[3] == q.x && terms[i].at[4] == q.y && terms[i].at[5] == q.theta, "only the loaded map is optimized");
        }
        vs_reach("optimized");
      }
      return false;
    });
  }
  else
  {
    // a map is loaded before the first scan arrives
    const bool service = vs_bool("service");
    if (!service) set.map_file = "b";
    auto node = start_node();
    if (service) configure(Config::Request::LOAD_FROM_FILE, "b");
    int step = 0;
    run_loop_thread([&]()
    {
      ++step;
      if (step == 3) { vs_check(events.empty(), "nothing can be matched without a matcher"); give_scan(half(0, 0, 0)); }
      if (step < 5) return true;
      vs_check(events.size() == 3, "the loaded map is examined from its start");
      is_same(*graph_now(), b, "the loaded map is kept");
      return false;
    });
    drawn.clear();
  }
  return 0;
}
