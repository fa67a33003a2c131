#pragma once
#include "score/concurrency/executor.h"
namespace score::concurrency { struct SimpleTaskFactory { template <typename F> static score::cpp::pmr::unique_ptr<Task> Make(score::cpp::pmr::memory_resource* r, F&& f) { auto t = score::cpp::pmr::make_unique<SimpleTaskImpl>(r); t->f = exec_detail::wrap(std::forward<F>(f)); return score::cpp::pmr::unique_ptr<Task>(std::move(t)); } }; }
