L='src/ldaplusplus/LDA.cpp'; H='include/ldaplusplus/LDA.hpp'; EM='src/ldaplusplus/em/'; EV='src/ldaplusplus/events/Events.cpp'; EH='include/ldaplusplus/events/Events.hpp'; GD='include/ldaplusplus/optimization/GradientDescent.hpp'
COPY="""        std::lock_guard<std::mutex> l(events_mutex_);
        events = events_;
        events_.clear();
    }
"""
DEL="""    {
        std::unique_lock<std::mutex> l1(listeners_mutex_, std::defer_lock);
        std::unique_lock<std::mutex> l2(deleted_listeners_mutex_, std::defer_lock);

        std::lock(l1, l2);

        for (auto l=listeners_.begin(); l!=listeners_.end(); ) {
            if (deleted_listeners_.find(*l) != deleted_listeners_.end()) {
                l = listeners_.erase(l);
            } else {
                l++;
            }
        }

        deleted_listeners_.clear();
    }
"""
LCOPY="""    std::list<std::shared_ptr<EventListenerInterface> > listeners;
    {
        std::lock_guard<std::mutex> l(listeners_mutex_);
        listeners = listeners_;
    }
"""
LOOP="""    for (auto ev : events) {
        for (auto l : listeners) {
            l->on_event(ev);
        }
    }
"""
MUTS=[
('push-front',['C05'],1,[(EV,"    events_.push_back(event);","    events_.push_front(event);")]),
('no-clear',['C05'],1,[(EV,"        events_.clear();\n","")]),
('clear-late',['C05'],1,[(EV,"        events_.clear();\n",""),(EV,LOOP,LOOP+"    {\n        std::lock_guard<std::mutex> l(events_mutex_);\n        events_.clear();\n    }\n")]),
('lock-held',['C05'],1,[(EV,LCOPY,"    std::list<std::shared_ptr<EventListenerInterface> > listeners;\n    std::lock_guard<std::mutex> l(listeners_mutex_);\n    listeners = listeners_;\n")]),
('copy-before-removal',['C05'],1,[(EV,LCOPY,""),(EV,DEL,LCOPY+DEL)]),
('wrong-polarity',['C05'],1,[(EV,"!= deleted_listeners_.end()) {\n","== deleted_listeners_.end()) {\n")]),
('no-thread-check',['C05'],1,[(EV,"    if (std::this_thread::get_id() == thread_id_) {\n        Thread","    {\n        Thread")]),
('thread-check-neg',['C05'],1,[(EV,"std::this_thread::get_id() == thread_id_","std::this_thread::get_id() != thread_id_")]),
('process-first',['C05'],1,[(EV,"""    ThreadSafeEventDispatcher::dispatch(event);

    if (std::this_thread::get_id() == thread_id_) {
        ThreadSafeEventDispatcher::process_events();
    }""","""    if (std::this_thread::get_id() == thread_id_) {
        ThreadSafeEventDispatcher::process_events();
    }

    ThreadSafeEventDispatcher::dispatch(event);""")]),
('lda-plain',['C05'],1,[(L,"make_shared<events::SameThreadEventDispatcher>","make_shared<events::EventDispatcher>")]),
('remove-first-only',['C05'],1,[(EV,"                l = listeners_.erase(l);","                listeners_.erase(l);\n                break;")]),
('remove-no-insert',['C05'],1,[(EV,"    deleted_listeners_.insert(listener);","    if (deleted_listeners_.empty())\n        deleted_listeners_.insert(listener);")]),
('skip-first',['C05'],1,[(EV,LOOP,"    bool first = events.size() > 1024;\n    for (auto ev : events) {\n        if (first) { first = false; continue; }\n        for (auto l : listeners) {\n            l->on_event(ev);\n        }\n    }\n")]),
('break-listener',['C05'],1,[(EV,LOOP,"    for (auto ev : events) {\n        for (auto l : listeners) {\n            l->on_event(ev);\n            if (ev.use_count() > 2) break;\n        }\n    }\n")]),
('swap-nest',['C05'],0,[(EV,LOOP,"    for (auto l : listeners) {\n        for (auto ev : events) {\n            l->on_event(ev);\n        }\n    }\n")]),
('reverse',['C05'],1,[(EV,"    for (auto ev : events) {","    events.reverse();\n    for (auto ev : events) {")]),
('dedupe',['C05'],1,[(EV,"    for (auto ev : events) {","    events.unique();\n    for (auto ev : events) {")]),
('bounded-queue',['C05'],1,[(EV,"    events_.push_back(event);","    if (events_.size() > 10000)\n        events_.pop_front();\n    events_.push_back(event);")]),
('bounded-drop',['C05'],1,[(EV,"    events_.push_back(event);","    if (events_.size() < 10000)\n        events_.push_back(event);")]),
('loop-while-empty',['C05'],0,[(EV,"    // copy the event list\n    std::list<std::shared_ptr<Event> > events;\n    {\n"+COPY,"    // take the event list\n    std::list<std::shared_ptr<Event> > events;\n    {\n        std::lock_guard<std::mutex> l(events_mutex_);\n        while (!events_.empty()) {\n            events.push_back(events_.front());\n            events_.pop_front();\n        }\n    }\n")]),
('r-index-loop',['C05','C01'],0,[(EV,LOOP,"    for (auto it = events.begin(); it != events.end(); ++it) {\n        for (auto jt = listeners.begin(); jt != listeners.end(); ++jt) {\n            (*jt)->on_event(*it);\n        }\n    }\n")]),
('r-removeif',['C05','C01'],0,[(EV,"""        for (auto l=listeners_.begin(); l!=listeners_.end(); ) {
            if (deleted_listeners_.find(*l) != deleted_listeners_.end()) {
                l = listeners_.erase(l);
            } else {
                l++;
            }
        }
""","""        listeners_.remove_if([this](const std::shared_ptr<EventListenerInterface> &l) {
            return deleted_listeners_.count(l) > 0;
        });
""")]),
('r-count',['C05','C01'],0,[(EV,"if (deleted_listeners_.find(*l) != deleted_listeners_.end()) {\n                l = listeners_.erase(l);\n            } else {\n                l++;\n            }","if (deleted_listeners_.count(*l) == 0) {\n                ++l;\n            } else {\n                l = listeners_.erase(l);\n            }")]),
('r-order-copies',['C05'],0,[(EV,LCOPY,""),(EV,"    // copy the event list\n",LCOPY+"    // copy the event list\n")]),
('r-early-return',['C05'],0,[(EV,"    // copy the listeners list\n","    if (events.empty())\n        return;\n")]),
('r-helper',['C05','C01'],0,[(EV,"    ThreadSafeEventDispatcher::dispatch(event);\n\n    if (std::this_thread::get_id() == thread_id_) {\n        ThreadSafeEventDispatcher::process_events();\n    }","    ThreadSafeEventDispatcher::dispatch(event);\n\n    bool mine = thread_id_ == std::this_thread::get_id();\n    if (!mine)\n        return;\n    process_events();")]),
('r-ref-loop',['C05'],0,[(EV,"    for (auto ev : events) {\n        for (auto l : listeners) {","    for (const auto &ev : events) {\n        for (const auto &l : listeners) {")]),
('r-foreach',['C05'],0,[(EV,"        for (auto l : listeners) {\n            l->on_event(ev);\n        }","        std::for_each(listeners.begin(), listeners.end(), [&ev](const std::shared_ptr<EventListenerInterface> &l) {\n            l->on_event(ev);\n        });"),(EV,"#include \"ldaplusplus/events/Events.hpp\"","#include <algorithm>\n#include \"ldaplusplus/events/Events.hpp\"")]),
]
