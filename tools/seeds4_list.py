it("C08-overrides-first-only","C08","two siblings running when an overwrite event starts","Only the first running sibling is ended by an overwrite event.",
 {"src/syntax/maneuver.cpp":[("    element.as<Event>().override();\n","    if (element.as<Event>().is<StoryboardElementState::runningState>()) {\n      element.as<Event>().override();\n      return;\n    }\n")]},
r'''int main()
{
  interp::prepare();
  auto r = run(document(story(event("p", "parallel", command("dummyLongRunningAction(9)") + after(.2)) + event("q", "parallel", command("dummyLongRunningAction(9)") + after(.4)) + event("o", "overwrite", command("dummyLongRunningAction(1)") + after(1)))));
  CHECK(r.frames.size() > 50);
  bool ran = false;
  for (size_t i = 0; i < r.frames.size(); ++i)
    if (state(ev(r.frames[i], 2)) == "runningState") {
      ran = true;
      CHECK(state(ev(r.frames[i], 0)) != "runningState");
      CHECK(state(ev(r.frames[i], 1)) != "runningState");
    }
  CHECK(ran);
  std::cout << "ok\n";
}
''')
it("C08-skip-only-first-time","C08","a skip event executed more than once, its later execution triggered while a sibling runs","The second execution of a skip event starts although a sibling is running.",
 {"src/syntax/event.cpp":[("      if (parent_maneuver.running_events_count() > 0) {","      if (current_execution_count == 0 and parent_maneuver.running_events_count() > 0) {")]},
r'''int main()
{
  interp::prepare();
  auto r = run(document(story(event("k", "skip", command("dummyLongRunningAction(.2)") + after(.3), " maximumExecutionCount=\"9\"") + event("p", "parallel", command("dummyLongRunningAction(1)") + after(.6)))));
  CHECK(r.frames.size() > 50);
  int quiet = 0;
  for (size_t i = 1; i < r.frames.size(); ++i)
    if (state(ev(r.frames[i], 1)) == "runningState" and state(ev(r.frames[i - 1], 1)) == "runningState") {
      ++quiet;
      CHECK(ev(r.frames[i], 0).at("currentExecutionCount") == ev(r.frames[i - 1], 0).at("currentExecutionCount"));
    }
  CHECK(quiet > 5);
  std::cout << "ok\n";
}
''')
it("C07-stopped-waits-again","C07","an event with executions left is ended by an overwrite event","A stopped event goes back to standby and starts again instead of being complete.",
 {"include/openscenario_interpreter/syntax/storyboard_element.hpp":[("        transitionTo(complete_state);\n        goto dispatch;\n    }","        transitionTo(\n          current_execution_count < maximum_execution_count ? standby_state : complete_state);\n        goto dispatch;\n    }")]},
r'''int main()
{
  interp::prepare();
  auto r = run(document(story(event("p", "parallel", command("dummyLongRunningAction(9)") + after(.2), " maximumExecutionCount=\"3\"") + event("o", "overwrite", command("dummyLongRunningAction(.3)") + after(1)))));
  CHECK(r.frames.size() > 40);
  CHECK(state(ev(r.frames.back(), 0)) == "completeState");
  CHECK(ev(r.frames.back(), 0).at("currentExecutionCount") == 1);
  std::cout << "ok\n";
}
''')
it("C07-actions-run-once","C07","an event of two actions of different length executed twice, its shorter action having completed before","In later executions of an event only the actions of its last one are started again.",
 {"src/syntax/event.cpp":[("    element.template as<StoryboardElement>().transitionTo(start_transition);","    if (current_execution_count == 0 or &element == &elements.back()) {\n      element.template as<StoryboardElement>().transitionTo(start_transition);\n    }")]},
r'''int main()
{
  interp::prepare();
  auto r = run(document(story(event("p", "parallel", command("dummyLongRunningAction(1)", "long") + command("dummyLongRunningAction(.3)", "short") + after(.2), " maximumExecutionCount=\"2\""))), 80);
  CHECK(r.frames.size() > 40);
  int both = 0;
  for (auto & f : r.frames)
    if (ev(f, 0).at("currentExecutionCount") == 2 and state(ev(f, 0)) == "runningState")
      both += state(ev(f, 0).at("Action")[0]) == "runningState" and state(ev(f, 0).at("Action")[1]) == "runningState";
  CHECK(both > 3);
  std::cout << "ok\n";
}
''')
it("C09-group-looks-no-further","C09","a group of two conditions whose second one has its edge while the first is still false","A condition after a false one is not evaluated, so its edge is seen late.",
 {"src/syntax/condition_group.cpp":[("        const auto rhs = condition.evaluate();\n        return lhs and rhs.as<Boolean>();","        return lhs and condition.evaluate().as<Boolean>();")]},
r'''std::string at(double t, const char * edge) { return "<Condition name=\"c\" delay=\"0\" conditionEdge=\"" + std::string(edge) + "\"><ByValueCondition><SimulationTimeCondition value=\"" + std::to_string(t) + "\" rule=\"greaterThan\"/></ByValueCondition></Condition>"; }
int main()
{
  interp::prepare();
  // one group: time > 1.5 and (time > 0.5 has just become true) can never hold
  // other event: time > 0.7 (rising) after a false one that becomes true in between
  auto never = "<StartTrigger><ConditionGroup>" + at(1.5, "none") + "<Condition name=\"d\" delay=\"0\" conditionEdge=\"rising\"><ByValueCondition><SimulationTimeCondition value=\"1.8\" rule=\"lessThan\"/></ByValueCondition></Condition></ConditionGroup></StartTrigger>";
  auto late = "<StartTrigger><ConditionGroup>" + at(1, "none") + "<Condition name=\"d\" delay=\"0.3\" conditionEdge=\"none\"><ByValueCondition><SimulationTimeCondition value=\"0.2\" rule=\"greaterThan\"/></ByValueCondition></Condition></ConditionGroup></StartTrigger>";
  auto r = run(document(story(event("never", "parallel", command(":") + never) + event("late", "parallel", command("dummyLongRunningAction(9)") + late))));
  CHECK(r.frames.size() > 50);
  for (size_t i = 0; i < r.frames.size(); ++i) {
    CHECK(state(ev(r.frames[i], 0)) == "standbyState");
    if (r.times[i] > 1.1) CHECK(state(ev(r.frames[i], 1)) == "runningState");
  }
  std::cout << "ok\n";
}
''')
it("C09-history-bounded","C09","a condition with a delay of more than 64 frames","A condition with a long delay never becomes true because its history is cut.",
 {"include/openscenario_interpreter/syntax/condition.hpp":[("    histories.push_back({evaluateSimulationTime(), ComplexType::evaluate().as<Boolean>()});","    if (histories.push_back({evaluateSimulationTime(), ComplexType::evaluate().as<Boolean>()});\n        histories.size() > 64) {\n      histories.pop_front();\n    }")]},
r'''int main()
{
  interp::prepare();
  auto r = run(document(story(event("e", "parallel", command("dummyLongRunningAction(9)") + after(.2, " delay=\"4\" conditionEdge=\"none\"")))), 120);
  CHECK(r.frames.size() > 110);
  for (size_t i = 0; i < r.frames.size(); ++i)
    if (r.times[i] > 4.5) CHECK(state(ev(r.frames[i], 0)) == "runningState");
  std::cout << "ok\n";
}
''')
