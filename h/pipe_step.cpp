// Attaching one step to a handle; compiled once per handle type (-DPIPE_H=1..10).
#include "pipe.hpp"

namespace pl {

template <int I>
H step_on(W& w, HAt<I>&& h, const Step& s) {
  using T = HT<HAt<I>>;
  H out;
  with_fn<typename T::V>(w, s, [&](auto&& f) {
    auto put = [&](auto&& n) {
      out.template emplace<std::decay_t<decltype(n)>>(std::move(n));
    };
    switch (s.at) {
      case aInline:
        put(std::move(h).ThenInline(std::move(f)));
        break;
      case aExec:
        put(std::move(h).Then(exec_of(w, s.exec), std::move(f)));
        break;
      default:
        if constexpr (T::kOn || T::kTask) {
          put(std::move(h).Then(std::move(f)));
        } else {
          mc::fail("no executor to inherit");
        }
    }
  });
  return out;
}

template H step_on<PIPE_H>(W&, HAt<PIPE_H>&&, const Step&);

template <int I>
void detach_on(W& w, HAt<I>&& h, const Step& s) {
  using T = HT<HAt<I>>;
  if constexpr (!T::kTask) {
    auto go = [&](auto&& f) {
      if constexpr (T::kShared) {
        switch (s.at) {
          case aInline:
            h.SubscribeInline(std::move(f));
            break;
          case aExec:
            static_cast<SharedFutureBase<typename T::V, E>&>(h).Subscribe(exec_of(w, s.exec), std::move(f));
            break;
          default:
            if constexpr (T::kOn) h.Subscribe(std::move(f));
        }
      } else {
        switch (s.at) {
          case aInline:
            std::move(h).DetachInline(std::move(f));
            break;
          case aExec:
            std::move(h).Detach(exec_of(w, s.exec), std::move(f));
            break;
          default:
            if constexpr (T::kOn) std::move(h).Detach(std::move(f));
        }
      }
    };
    switch (s.sig) {
      case sVal:
        return go(Fn<E, typename T::V, sVal, rVoid, pValue>{&w, s.id, Tok{w.live}});
      case sRes:
        return go(Fn<E, typename T::V, sRes, rVoid, pValue>{&w, s.id, Tok{w.live}});
      case sErr:
        return go(Fn<E, typename T::V, sErr, rVoid, pValue>{&w, s.id, Tok{w.live}});
      default:
        return go(Fn<E, typename T::V, sExc, rVoid, pValue>{&w, s.id, Tok{w.live}});
    }
  }
}

template void detach_on<PIPE_H>(W&, HAt<PIPE_H>&&, const Step&);

}  // namespace pl
