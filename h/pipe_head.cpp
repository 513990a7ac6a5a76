// Sources that run a callback; compiled once per kind (-DPIPE_HEAD=0..2).
#include "pipe.hpp"

namespace pl {
namespace {

template <class F>
H make(W& w, const Step& s, F&& attach) {
  H out;
  with_fn<void>(w, s, [&](auto&& f) {
    attach(std::move(f), [&](auto&& n) {
      out.template emplace<std::decay_t<decltype(n)>>(std::move(n));
    });
  });
  return out;
}

}  // namespace

#if PIPE_HEAD == 0
H head_run(W& w, const Step& s, bool inl) {
  return make(w, s, [&](auto&& f, auto put) {
    inl ? put(Run<E>(std::move(f))) : put(Run<E>(exec_of(w, s.exec), std::move(f)));
  });
}
#elif PIPE_HEAD == 1
H head_run_shared(W& w, const Step& s, bool inl) {
  return make(w, s, [&](auto&& f, auto put) {
    inl ? put(RunShared<E>(std::move(f))) : put(RunShared<E>(exec_of(w, s.exec), std::move(f)));
  });
}
#else
H head_schedule(W& w, const Step& s, bool inl) {
  return make(w, s, [&](auto&& f, auto put) {
    inl ? put(Schedule<E>(std::move(f))) : put(Schedule<E>(exec_of(w, s.exec), std::move(f)));
  });
}
#endif

}  // namespace pl
