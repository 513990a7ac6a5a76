// Coroutine helpers for harnesses.
#pragma once
#include "h.hpp"

#include <yaclib/async/join.hpp>
#include <yaclib/async/share.hpp>
#include <yaclib/async/shared_contract.hpp>
#include <yaclib/async/split.hpp>
#include <yaclib/async/wait_for.hpp>
#include <yaclib/async/wait_until.hpp>
#include <yaclib/async/when_all.hpp>
#include <yaclib/async/when_any.hpp>
#include <yaclib/coro/await.hpp>
#include <yaclib/coro/await_inline.hpp>
#include <yaclib/coro/await_on.hpp>
#include <yaclib/coro/await_sticky.hpp>
#include <yaclib/coro/current_executor.hpp>
#include <yaclib/coro/future.hpp>
#include <yaclib/coro/on.hpp>
#include <yaclib/coro/shared_future.hpp>
#include <yaclib/coro/task.hpp>
#include <yaclib/coro/yield.hpp>
#include <yaclib/lazy/make.hpp>
#include <yaclib/lazy/schedule.hpp>

namespace h {

// Turns what co_await threw into the same code as code(Result).
template <typename E>
int caught_code() {
  try {
    throw;
  } catch (const yaclib::ResultError<E>& e) {
    auto copy = e;
    return 1000 + ev(copy.Get());
  } catch (const Exc& e) {
    return 2000 + e.v;
  } catch (...) {
    return 2999;
  }
}

}  // namespace h
