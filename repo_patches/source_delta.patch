From 1021a2fab8cd2eebe8ba8c1df84f8bdcb5ffc59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:48 +0000
Subject: [PATCH 01/44] fix: do not terminate the ASIL-B provider when the qm
 slot of a free slot differs from the asil-b slot

A QM consumer can write to the qm control block, and a previous provider can
have crashed between updating the asil-b and the qm slot. In both cases two
unused slots with the same index, but different values are a legal state of the
control blocks, on which the provider terminated. Use the value of each control
block as expected value of its own slot allocation instead.
---
 .../lola/event_data_control_composite.cpp     | 23 ++++++++-----------
 .../lola/event_data_control_composite.h       | 16 +++++++++----
 2 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/event_data_control_composite.cpp b/score/mw/com/impl/bindings/lola/event_data_control_composite.cpp
index 4b7a671..b94b094 100644
--- a/score/mw/com/impl/bindings/lola/event_data_control_composite.cpp
+++ b/score/mw/com/impl/bindings/lola/event_data_control_composite.cpp
@@ -52,10 +52,10 @@ template <template <class> class AtomicIndirectorType>
 // [Ticket-173043](broken_link_j/Ticket-173043)
 // coverity[autosar_cpp14_a15_5_3_violation : FALSE]
 auto EventDataControlComposite<AtomicIndirectorType>::GetNextFreeMultiSlot() const noexcept
-    -> std::optional<typename ProviderEventDataControlLocalView<AtomicIndirectorType>::SlotInfo>
+    -> std::optional<MultiSlotInfo>
 {
     EventSlotStatus::EventTimeStamp oldest_time_stamp{EventSlotStatus::TIMESTAMP_MAX};
-    std::optional<typename ProviderEventDataControlLocalView<AtomicIndirectorType>::SlotInfo> slot_info{};
+    std::optional<MultiSlotInfo> slot_info{};
 
     for (SlotIndexType slot_index = 0U;
          // Suppress "AUTOSAR C++14 A4-7-1" rule finding. This rule states: "An integer expression shall not lead to
@@ -82,13 +82,8 @@ auto EventDataControlComposite<AtomicIndirectorType>::GetNextFreeMultiSlot() con
             const auto time_stamp = slot_b.GetTimeStamp();
             if (time_stamp < oldest_time_stamp)
             {
-                SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(
-                    static_cast<EventSlotStatus::value_type>(slot_qm) ==
-                        static_cast<EventSlotStatus::value_type>(slot_b),
-                    "Defensive progamming: QM and ASIL-B control slots are expected to be in the same state. Assert "
-                    "this to ensure that returning the qm slot value to be used also for the asil-b slot value is "
-                    "correct. We already check if the qm value is incorrect (hinting at a memory corruption) above.");
-                slot_info = {slot_index, static_cast<EventSlotStatus::value_type>(slot_qm)};
+                slot_info = MultiSlotInfo{SlotInfo{slot_index, static_cast<EventSlotStatus::value_type>(slot_qm)},
+                                          SlotInfo{slot_index, static_cast<EventSlotStatus::value_type>(slot_b)}};
                 oldest_time_stamp = time_stamp;
             }
         }
@@ -113,20 +108,22 @@ auto EventDataControlComposite<AtomicIndirectorType>::AllocateNextMultiSlot() no
         const auto free_multi_slot_result = GetNextFreeMultiSlot();
         if (free_multi_slot_result.has_value())
         {
-            const auto qm_old_slot_value_result = asil_qm_control_local_.get().TryAllocateSlot(*free_multi_slot_result);
+            const auto qm_old_slot_value_result =
+                asil_qm_control_local_.get().TryAllocateSlot(free_multi_slot_result->asil_qm);
             if (!(qm_old_slot_value_result.has_value()))
             {
                 continue;
             }
 
-            const auto asil_b_allocation_result = asil_b_control_local_->TryAllocateSlot(*free_multi_slot_result);
+            const auto asil_b_allocation_result =
+                asil_b_control_local_->TryAllocateSlot(free_multi_slot_result->asil_b);
             if (!(asil_b_allocation_result.has_value()))
             {
                 asil_qm_control_local_.get().SetSlotValue(
-                    {free_multi_slot_result->slot_index, qm_old_slot_value_result.value()});
+                    {free_multi_slot_result->asil_qm.slot_index, qm_old_slot_value_result.value()});
                 continue;
             }
-            return free_multi_slot_result->slot_index;
+            return free_multi_slot_result->asil_b.slot_index;
         }
     }
 
diff --git a/score/mw/com/impl/bindings/lola/event_data_control_composite.h b/score/mw/com/impl/bindings/lola/event_data_control_composite.h
index 1fad4f7..d18ef89 100644
--- a/score/mw/com/impl/bindings/lola/event_data_control_composite.h
+++ b/score/mw/com/impl/bindings/lola/event_data_control_composite.h
@@ -128,10 +128,18 @@ class EventDataControlComposite
     bool ignore_qm_control_;
 
     // Algorithms that operate on multiple control blocks
-    // \post the returned selected free slot for qm and asil-b must contain the same index and slot value (therefore, we
-    //       only return a single SlotInfo which represents both qm and asil-b slots).
-    std::optional<typename ProviderEventDataControlLocalView<AtomicIndirectorType>::SlotInfo> GetNextFreeMultiSlot()
-        const noexcept;
+    using SlotInfo = typename ProviderEventDataControlLocalView<AtomicIndirectorType>::SlotInfo;
+
+    /// \brief A slot, which is free in both control blocks. The slot values of qm and asil-b might differ, if a QM
+    /// consumer modified the qm control block or if a previous provider crashed in between updating both blocks.
+    struct MultiSlotInfo
+    {
+        SlotInfo asil_qm;
+        SlotInfo asil_b;
+    };
+
+    // \post the returned selected free slot for qm and asil-b contains the same index.
+    std::optional<MultiSlotInfo> GetNextFreeMultiSlot() const noexcept;
 
     std::optional<SlotIndexType> AllocateNextMultiSlot() noexcept;
 };
-- 
2.43.0


From d29beb2bfa0b15205933140072b9f0dd4377f725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:13 +0000
Subject: [PATCH 02/44] fix: LockFile leaves no file and no descriptor behind
 when chmod fails

---
 score/memory/shared/lock_file.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/score/memory/shared/lock_file.cpp b/score/memory/shared/lock_file.cpp
index 6db8448..306801a 100644
--- a/score/memory/shared/lock_file.cpp
+++ b/score/memory/shared/lock_file.cpp
@@ -45,15 +45,17 @@ std::optional<LockFile> LockFile::Create(std::string path) noexcept
                                         << " | Error: " << create_result.error().ToString();
         return {};
     }
-    auto result = score::os::Stat::instance().chmod(path.data(), kReadAccessForAll);
+    // From here on the file is owned: it is closed and removed again if we leave without handing it out.
+    constexpr bool owns_file{true};
+    LockFile lock_file{std::move(path), create_result.value(), owns_file};
+    auto result = score::os::Stat::instance().chmod(lock_file.lock_file_path_.data(), kReadAccessForAll);
     if (!result.has_value())
     {
-        score::mw::log::LogError("shm") << "LockFile::Create failed to chmod file: " << path
+        score::mw::log::LogError("shm") << "LockFile::Create failed to chmod file: " << lock_file.lock_file_path_
                                         << " | Error: " << result.error().ToString();
         return {};
     }
-    constexpr bool owns_file{true};
-    return LockFile{std::move(path), create_result.value(), owns_file};
+    return lock_file;
 }
 
 std::optional<LockFile> LockFile::CreateOrOpen(std::string path, bool take_ownership) noexcept
@@ -76,6 +78,7 @@ std::optional<LockFile> LockFile::CreateOrOpen(std::string path, bool take_owner
     {
         score::mw::log::LogError("shm") << "LockFile::CreateOrOpen failed to chmod file: " << path
                                         << " | Error: " << result.error().ToString();
+        score::cpp::ignore = ::score::os::Unistd::instance().close(create_result.value());
         return {};
     }
     return LockFile{std::move(path), create_result.value(), take_ownership};
-- 
2.43.0


From 4d333d430abd3736d6af773e0c9deabdcf5f7258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:20 +0000
Subject: [PATCH 03/44] fix: remove stale shared memory before its lock file

---
 .../shared/shared_memory_factory_impl.cpp     | 37 ++++++++++---------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/score/memory/shared/shared_memory_factory_impl.cpp b/score/memory/shared/shared_memory_factory_impl.cpp
index 6c5bdba..3cd73f6 100644
--- a/score/memory/shared/shared_memory_factory_impl.cpp
+++ b/score/memory/shared/shared_memory_factory_impl.cpp
@@ -369,9 +369,6 @@ auto SharedMemoryFactoryImpl::RemoveStaleArtefacts(const std::string& path) noex
             GetResourceIfAlreadyOpened(path, resources_) == nullptr,
             "RemoveStaleArtefacts must not be called when the path corresponds to a currently owned resource.");
     }
-    const auto lock_file_path = SharedMemoryResource::GetLockFilePath(path);
-    score::cpp::ignore = ::score::os::Unistd::instance().unlink(lock_file_path.data());
-
     const bool is_shm_in_typed_memory = IsShmInTypedMemory(path);
     // Known coverage bug: "decision couldn't be analyzed"
     // Acceptable at a 100% line coverage
@@ -386,24 +383,30 @@ auto SharedMemoryFactoryImpl::RemoveStaleArtefacts(const std::string& path) noex
         // part of mw::com) from the ban by listing it in the not relevant for field.
         // NOLINTNEXTLINE(score-banned-function): explanation on lines above.
         score::cpp::ignore = ::score::os::Mman::instance().shm_unlink(path.c_str());
-        return;
-    }
-
-    const auto unlink_result = typed_memory_ptr_->Unlink(path);
-    if (unlink_result.has_value())
-    {
-        score::mw::log::LogDebug("shm") << "Shm typed memory unlinked for: " << path;
     }
     else
     {
-        // Suppress "AUTOSAR C++14 A0-1-1", The rule states: "A project shall not contain instances of non-volatile
-        // variables being given values that are not subsequently used"
-        // Rationale: There is no variable defined in the following line.
-        score::mw::log::LogError("shm")
-            // coverity[autosar_cpp14_a0_1_1_violation : FALSE]
-            << __func__ << __LINE__ << "Unexpected error while trying to unlink shared-memory in typed memory"
-            << "Reason: " << unlink_result.error();
+        const auto unlink_result = typed_memory_ptr_->Unlink(path);
+        if (unlink_result.has_value())
+        {
+            score::mw::log::LogDebug("shm") << "Shm typed memory unlinked for: " << path;
+        }
+        else
+        {
+            // Suppress "AUTOSAR C++14 A0-1-1", The rule states: "A project shall not contain instances of non-volatile
+            // variables being given values that are not subsequently used"
+            // Rationale: There is no variable defined in the following line.
+            score::mw::log::LogError("shm")
+                // coverity[autosar_cpp14_a0_1_1_violation : FALSE]
+                << __func__ << __LINE__ << "Unexpected error while trying to unlink shared-memory in typed memory"
+                << "Reason: " << unlink_result.error();
+        }
     }
+
+    // The lock file of a crashed creator has to stay in place until the shared memory is gone. Otherwise, a process that
+    // waits for the lock file could open the shared memory, which the crashed creator did not completely initialize.
+    const auto lock_file_path = SharedMemoryResource::GetLockFilePath(path);
+    score::cpp::ignore = ::score::os::Unistd::instance().unlink(lock_file_path.data());
 }
 
 auto SharedMemoryFactoryImpl::SetTypedMemoryProvider(std::shared_ptr<TypedMemory> typed_memory_ptr) noexcept -> void
-- 
2.43.0


From 4c48f5656116747d614ae5daba631a1f55a7890e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:11 +0000
Subject: [PATCH 04/44] fix: TimedCommandQueue::CleanUpOwner(nullptr) must not
 remove any entry

The documentation promises that a nullptr owner causes no entry to be removed,
but all entries registered without an owner were dropped without being run.
---
 score/message_passing/timed_command_queue.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/score/message_passing/timed_command_queue.cpp b/score/message_passing/timed_command_queue.cpp
index 999336a..4ecddd2 100644
--- a/score/message_passing/timed_command_queue.cpp
+++ b/score/message_passing/timed_command_queue.cpp
@@ -65,6 +65,10 @@ TimedCommandQueue::TimePoint TimedCommandQueue::ProcessQueue(const TimePoint now
 
 void TimedCommandQueue::CleanUpOwner(const void* const owner) noexcept
 {
+    if (owner == nullptr)
+    {
+        return;
+    }
     std::unique_lock<std::mutex> lock(mutex_);
     queue_.remove_and_dispose_if(
         [owner](auto& queue_entry) {
-- 
2.43.0


From d2275b99a0f90f739933ac49e3eba776e5dde3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:56 +0000
Subject: [PATCH 05/44] fix: concurrent clean-ups of one owner must not lose
 the clean-up command

CleanUpOwner() called outside the callback thread waits for a command which it
registered for the very owner to be cleaned up. Another clean-up of this owner
processed before it removed that command, and the caller waited forever.
---
 .../qnx_dispatch/qnx_dispatch_engine.cpp             | 12 +++++-------
 .../unix_domain/unix_domain_engine.cpp               | 12 +++++-------
 2 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/score/message_passing/qnx_dispatch/qnx_dispatch_engine.cpp b/score/message_passing/qnx_dispatch/qnx_dispatch_engine.cpp
index 9c9eedc..ef01b4b 100644
--- a/score/message_passing/qnx_dispatch/qnx_dispatch_engine.cpp
+++ b/score/message_passing/qnx_dispatch/qnx_dispatch_engine.cpp
@@ -451,13 +451,11 @@ void QnxDispatchEngine::CleanUpOwner(const void* const owner) noexcept
     {
         detail::NonAllocatingFuture future(client_runner_.GetMutex(), cleanup_ready_condition_);
         detail::TimedCommandQueue::Entry cleanup_command;
-        timer_queue_.RegisterImmediateEntry(
-            cleanup_command,
-            [this, owner, &future](auto) noexcept {
-                ProcessCleanup(owner);
-                future.MarkReady();
-            },
-            owner);
+        // without an owner: a concurrent clean-up of the same owner must not remove the command we wait for
+        timer_queue_.RegisterImmediateEntry(cleanup_command, [this, owner, &future](auto) noexcept {
+            ProcessCleanup(owner);
+            future.MarkReady();
+        });
         WakeUpTimerQueue();
         future.Wait();
     }
diff --git a/score/message_passing/unix_domain/unix_domain_engine.cpp b/score/message_passing/unix_domain/unix_domain_engine.cpp
index c01611a..89f18fc 100644
--- a/score/message_passing/unix_domain/unix_domain_engine.cpp
+++ b/score/message_passing/unix_domain/unix_domain_engine.cpp
@@ -175,13 +175,11 @@ void UnixDomainEngine::CleanUpOwner(const void* const owner) noexcept
     {
         std::promise<void> done;  // TODO: maybe switch to NonAllocatingFuture
         detail::TimedCommandQueue::Entry cleanup_command;
-        timer_queue_.RegisterImmediateEntry(
-            cleanup_command,
-            [this, owner, &done](auto) noexcept {
-                ProcessCleanup(owner);
-                done.set_value();
-            },
-            owner);
+        // without an owner: a concurrent clean-up of the same owner must not remove the command we wait for
+        timer_queue_.RegisterImmediateEntry(cleanup_command, [this, owner, &done](auto) noexcept {
+            ProcessCleanup(owner);
+            done.set_value();
+        });
         SendPipeEvent(PipeEvent::TIMER);
         done.get_future().wait();
     }
-- 
2.43.0


From 62e10a12f305bb2b4cfc24311f4ec25ce7c28957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:09 +0000
Subject: [PATCH 06/44] fix: UnixDomainEngine must not wait indefinitely for an
 overdue timer

If the next timed command became due by more than a millisecond between the two
clock readings, the poll timeout was negative and the command did not run until
some other event woke the thread up.
---
 score/message_passing/unix_domain/unix_domain_engine.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/score/message_passing/unix_domain/unix_domain_engine.cpp b/score/message_passing/unix_domain/unix_domain_engine.cpp
index 89f18fc..1eec572 100644
--- a/score/message_passing/unix_domain/unix_domain_engine.cpp
+++ b/score/message_passing/unix_domain/unix_domain_engine.cpp
@@ -346,6 +346,11 @@ std::int32_t UnixDomainEngine::ProcessTimerQueue() noexcept
         return -1;
     }
     const auto distance_ms = std::chrono::duration_cast<std::chrono::milliseconds>(then - Clock::now()).count();
+    if (distance_ms < 0)
+    {
+        // already due by now; a negative timeout would let poll() wait indefinitely
+        return 0;
+    }
     if (distance_ms >= INT32_MAX)
     {
         return INT32_MAX;
-- 
2.43.0


From 7cb61b284a45ed73a29c42bd8efbc40bc3a087f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:44 +0000
Subject: [PATCH 07/44] fix: a stopped client connection gets its send buffers
 back

The messages still queued when a connection stops were dropped without giving
their buffers back to the pool, so that after a restart fewer and fewer (and
finally no) messages could be queued.
---
 score/message_passing/client_connection.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/score/message_passing/client_connection.cpp b/score/message_passing/client_connection.cpp
index 2cd2e44..55f4036 100644
--- a/score/message_passing/client_connection.cpp
+++ b/score/message_passing/client_connection.cpp
@@ -598,8 +598,10 @@ void ClientConnection::SwitchToStopState() noexcept
     }
     while (!send_queue_.empty())
     {
-        auto callback = std::move(send_queue_.front().callback);
+        SendCommand& send = send_queue_.front();
         send_queue_.pop_front();
+        auto callback = std::move(send.callback);
+        send_pool_.push_front(send);
         if (!callback.empty())
         {
             lock.unlock();
-- 
2.43.0


From d8d0e1cd5799dd8171734daaed48c29e4635b20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:24 +0000
Subject: [PATCH 08/44] fix: state changes of a client connection must neither
 overlap nor overtake each other

---
 score/message_passing/client_connection.cpp | 85 +++++++++++++++------
 score/message_passing/client_connection.h   |  3 +
 2 files changed, 65 insertions(+), 23 deletions(-)

diff --git a/score/message_passing/client_connection.cpp b/score/message_passing/client_connection.cpp
index 55f4036..e8c4760 100644
--- a/score/message_passing/client_connection.cpp
+++ b/score/message_passing/client_connection.cpp
@@ -291,28 +291,16 @@ void ClientConnection::Start(StateCallback state_callback, NotifyCallback notify
 
 void ClientConnection::Stop() noexcept
 {
-    if (TrySetStopReason(StopReason::kUserRequested))
+    if (TryBeginStopping(StopReason::kUserRequested))
     {
-        ProcessStateChange(State::kStopping);
-        if (IsInCallback())
-        {
-            SwitchToStopState();
-        }
-        else
-        {
-            engine_->EnqueueCommand(
-                disconnection_command_,
-                ISharedResourceEngine::TimePoint{},
-                [this](auto) noexcept {
-                    SwitchToStopState();
-                },
-                this);
-        }
+        ScheduleSwitchToStopState();
     }
 }
 
 void ClientConnection::Restart() noexcept
 {
+    const std::shared_ptr<CallbackContext> context{callback_context_};
+    const std::lock_guard<std::recursive_mutex> guard{context->finalize_mutex};
     if (state_ != State::kStopped)
     {
         return;
@@ -323,8 +311,19 @@ void ClientConnection::Restart() noexcept
 
 void ClientConnection::DoRestart() noexcept
 {
+    // Keeps Stop() of another thread from interfering till the connection attempt is under way. The connection object
+    // might be destructed in a nested callback, thus the context is held separately.
+    const std::shared_ptr<CallbackContext> context{callback_context_};
+    const std::lock_guard<std::recursive_mutex> guard{context->finalize_mutex};
+
     stop_reason_ = StopReason::kNone;
+    const auto expected_change_count = context->state_change_count + 1U;
     ProcessStateChange(State::kStarting);
+    if (context->state_change_count != expected_change_count)
+    {
+        // stopped from within the Starting callback; the connection object might even be destructed already
+        return;
+    }
 
     LogInfo(engine_->GetLogger(), "ClientConnection::DoRestart ", engine_->IsOnCallbackThread(), " ", identifier_);
 
@@ -347,8 +346,8 @@ void ClientConnection::DoRestart() noexcept
 
 void ClientConnection::TryConnect() noexcept
 {
-    // The order of access to these atomics is important, as stop_reason_ can change in background
-    SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG(((stop_reason_ == StopReason::kNone) && (state_ == State::kStarting)) ||
+    // The order of access to these atomics is important, as they can change in background
+    SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG((state_ == State::kStarting) ||
                                         ((state_ == State::kStopping) && (stop_reason_ == StopReason::kUserRequested)));
 
     auto& logger = engine_->GetLogger();
@@ -366,10 +365,9 @@ void ClientConnection::TryConnect() noexcept
         {
             LogError(logger, "TryOpenClientConnection ", identifier_, " non-retry OS error code ", os_code);
             StopReason stop_reason = (os_code == EACCES) ? StopReason::kPermission : StopReason::kIoError;
-            if (TrySetStopReason(stop_reason))
+            if (TryBeginStopping(stop_reason))
             {
-                ProcessStateChange(State::kStopping);
-                SwitchToStopState();
+                ScheduleSwitchToStopState();
             }
             return;
         }
@@ -409,15 +407,22 @@ void ClientConnection::TryConnect() noexcept
             this);
         return;
     }
+
+    const std::shared_ptr<CallbackContext> context{callback_context_};
+    const std::lock_guard<std::recursive_mutex> guard{context->finalize_mutex};
     client_fd_ = fd_expected.value();
+    if (state_ != State::kStarting)
+    {
+        // Stop() got called in background; client_fd_ will be closed in SwitchToStopState()
+        return;
+    }
     posix_endpoint_.owner = this;
     posix_endpoint_.fd = client_fd_;
     posix_endpoint_.max_receive_size = max_receive_size_;
     posix_endpoint_.input = [this]() noexcept {
         StopReason stop_reason = ProcessInputEvent();
-        if ((stop_reason != StopReason::kNone) && TrySetStopReason(stop_reason))
+        if ((stop_reason != StopReason::kNone) && TryBeginStopping(stop_reason))
         {
-            ProcessStateChange(State::kStopping);
             engine_->UnregisterPosixEndpoint(posix_endpoint_);
         }
     };
@@ -572,6 +577,24 @@ void ClientConnection::ProcessSendQueueUnderLock(std::unique_lock<std::mutex>& l
     }
 }
 
+void ClientConnection::ScheduleSwitchToStopState() noexcept
+{
+    if (IsInCallback())
+    {
+        SwitchToStopState();
+    }
+    else
+    {
+        engine_->EnqueueCommand(
+            disconnection_command_,
+            ISharedResourceEngine::TimePoint{},
+            [this](auto) noexcept {
+                SwitchToStopState();
+            },
+            this);
+    }
+}
+
 void ClientConnection::SwitchToStopState() noexcept
 {
     SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG(state_ == State::kStopping);
@@ -627,6 +650,18 @@ bool ClientConnection::TrySetStopReason(const StopReason stop_reason) noexcept
     return stop_reason_.compare_exchange_strong(old_stop_reason, stop_reason);
 }
 
+bool ClientConnection::TryBeginStopping(const StopReason stop_reason) noexcept
+{
+    const std::shared_ptr<CallbackContext> context{callback_context_};
+    const std::lock_guard<std::recursive_mutex> guard{context->finalize_mutex};
+    if (!TrySetStopReason(stop_reason))
+    {
+        return false;
+    }
+    ProcessStateChange(State::kStopping);
+    return true;
+}
+
 void ClientConnection::ProcessStateChangeToStopped() noexcept
 {
     if (callback_context_->state_callback.empty())
@@ -641,6 +676,7 @@ void ClientConnection::ProcessStateChangeToStopped() noexcept
         // 1. destructor called from state_callback (normal use)
         // 2. Restart() called from state_callback (normal use)
         // 3. destructor called from another thread when it sees Stopped state (not recommended use)
+        ++context->state_change_count;
         state_ = State::kStopped;
         context->state_callback(state_);
     }
@@ -652,6 +688,9 @@ void ClientConnection::ProcessStateChange(const State state) noexcept
 
     if (state != State::kStopped)
     {
+        // Already under finalize_mutex: the state changes and their callbacks shall neither overlap nor overtake each
+        // other.
+        ++callback_context_->state_change_count;
         state_ = state;
         if (!callback_context_->state_callback.empty())
         {
diff --git a/score/message_passing/client_connection.h b/score/message_passing/client_connection.h
index 36cce14..ec0f13a 100644
--- a/score/message_passing/client_connection.h
+++ b/score/message_passing/client_connection.h
@@ -71,9 +71,11 @@ class ClientConnection final : public IClientConnection
     void ArmSendQueueUnderLock() noexcept;
 
     bool TrySetStopReason(const StopReason stop_reason) noexcept;
+    bool TryBeginStopping(const StopReason stop_reason) noexcept;
 
     void ProcessStateChangeToStopped() noexcept;
     void ProcessStateChange(const State state) noexcept;
+    void ScheduleSwitchToStopState() noexcept;
     void SwitchToStopState() noexcept;
 
     bool IsInCallback() const noexcept
@@ -98,6 +100,7 @@ class ClientConnection final : public IClientConnection
     {
         StateCallback state_callback;
         std::recursive_mutex finalize_mutex;
+        std::uint64_t state_change_count{0U};  // guarded by finalize_mutex, if state_callback is set
     };
     std::shared_ptr<CallbackContext> callback_context_;
 
-- 
2.43.0


From 0e99aa0647821cacf165f76450d51dab56f9b662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:45 +0000
Subject: [PATCH 09/44] fix: no queued send may be armed after the clean-up of
 a stopping client connection

---
 score/message_passing/client_connection.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/score/message_passing/client_connection.cpp b/score/message_passing/client_connection.cpp
index e8c4760..a6dd920 100644
--- a/score/message_passing/client_connection.cpp
+++ b/score/message_passing/client_connection.cpp
@@ -120,6 +120,11 @@ score::cpp::expected_blank<score::os::Error> ClientConnection::Send(
         return engine_->SendProtocolMessage(client_fd_, score::cpp::to_underlying(ClientToServer::SEND), message);
     }
     std::lock_guard<std::mutex> guard{send_mutex_};
+    if (state_ != State::kReady)
+    {
+        // stopped while we were waiting for the lock
+        return score::cpp::make_unexpected(score::os::Error::createFromErrno(EINVAL));
+    }
     if (!waiting_for_reply_.has_value())
     {
         if (client_config_.truly_async)
@@ -186,6 +191,11 @@ score::cpp::expected<score::cpp::span<const std::uint8_t>, score::os::Error> Cli
     };
 
     std::unique_lock<std::mutex> lock(send_mutex_);
+    if (state_ != State::kReady)
+    {
+        // stopped while we were waiting for the lock
+        return score::cpp::make_unexpected(score::os::Error::createFromErrno(EINVAL));
+    }
     if (waiting_for_reply_.has_value())
     {
         // TODO: avoid copying the message
@@ -242,6 +252,11 @@ score::cpp::expected_blank<score::os::Error> ClientConnection::SendWithCallback(
         return score::cpp::make_unexpected(score::os::Error::createFromErrno(EINVAL));
     }
     std::lock_guard<std::mutex> guard(send_mutex_);
+    if (state_ != State::kReady)
+    {
+        // stopped while we were waiting for the lock
+        return score::cpp::make_unexpected(score::os::Error::createFromErrno(EINVAL));
+    }
     if (waiting_for_reply_.has_value())
     {
         if (!TryQueueMessage(message, std::move(callback)))
@@ -601,6 +616,11 @@ void ClientConnection::SwitchToStopState() noexcept
     SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG(stop_reason_ != StopReason::kNone);
     SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG(IsInCallback());
     posix_endpoint_.disconnect = {};  // no need to trigger the cleanup once more
+    {
+        // The senders that still see the connection as ready are done with arming the send queue once we get the lock;
+        // async_send_command_ will not be enqueued after the cleanup below.
+        const std::lock_guard<std::mutex> barrier{send_mutex_};
+    }
     engine_->CleanUpOwner(this);
     if (client_fd_ != -1)
     {
-- 
2.43.0


From ab4332def02a7924b7b425353592b4a5a7b355aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:00 +0000
Subject: [PATCH 10/44] fix: SendWaitReply must not leave while its callback
 can still be called

---
 score/message_passing/client_connection.cpp | 17 +++++++++--------
 score/message_passing/client_connection.h   |  1 +
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/score/message_passing/client_connection.cpp b/score/message_passing/client_connection.cpp
index a6dd920..2fb502a 100644
--- a/score/message_passing/client_connection.cpp
+++ b/score/message_passing/client_connection.cpp
@@ -214,20 +214,19 @@ score::cpp::expected<score::cpp::span<const std::uint8_t>, score::os::Error> Cli
     else
     {
         waiting_for_reply_ = std::move(callback);
+        const auto taken_callbacks = taken_callbacks_;
         lock.unlock();
         const auto expected =
             engine_->SendProtocolMessage(client_fd_, score::cpp::to_underlying(ClientToServer::REQUEST), message);
         lock.lock();
-        if (!expected.has_value())
+        // If our callback is already taken out of waiting_for_reply_ (by SwitchToStopState()), it refers to our local
+        // variables; we need to wait till it's called. Otherwise, it's still in waiting_for_reply_.
+        if ((!expected.has_value()) && (taken_callbacks_ == taken_callbacks))
         {
-            if (send_queue_.empty())
-            {
-                // no one managed to get into queue while we were blocking it
-                waiting_for_reply_.reset();
-            }
-            else
+            waiting_for_reply_.reset();
+            if ((!send_queue_.empty()) && (state_ == State::kReady))
             {
-                // unblock the queue
+                // unblock the queue for those who managed to get into it while we were blocking it
                 ArmSendQueueUnderLock();
             }
             return score::cpp::make_unexpected(expected.error());
@@ -497,6 +496,7 @@ IClientConnection::StopReason ClientConnection::ProcessInputEvent() noexcept
             {
                 ReplyCallback callback = std::move(*waiting_for_reply_);
                 waiting_for_reply_.reset();
+                ++taken_callbacks_;
                 ProcessSendQueueUnderLock(lock);
                 lock.unlock();
                 callback(message);
@@ -632,6 +632,7 @@ void ClientConnection::SwitchToStopState() noexcept
     {
         auto callback = std::move(*waiting_for_reply_);
         waiting_for_reply_.reset();
+        ++taken_callbacks_;
         lock.unlock();
         if (!callback.empty())
         {
diff --git a/score/message_passing/client_connection.h b/score/message_passing/client_connection.h
index ec0f13a..3589577 100644
--- a/score/message_passing/client_connection.h
+++ b/score/message_passing/client_connection.h
@@ -135,6 +135,7 @@ class ClientConnection final : public IClientConnection
     score::containers::intrusive_list<SendCommand> send_queue_;
 
     std::optional<ReplyCallback> waiting_for_reply_;
+    std::uint64_t taken_callbacks_{0U};  // how many times waiting_for_reply_ was taken to be called; under send_mutex_
 
     ISharedResourceEngine::CommandQueueEntry connection_timer_;
     ISharedResourceEngine::CommandQueueEntry disconnection_command_;
-- 
2.43.0


From fcc752626c9c14ad7ff47a406e8390faa14eefc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:00 +0000
Subject: [PATCH 11/44] fix: a failing accept() must not terminate the server

---
 score/message_passing/unix_domain/unix_domain_server.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/score/message_passing/unix_domain/unix_domain_server.cpp b/score/message_passing/unix_domain/unix_domain_server.cpp
index eb87c2d..e350690 100644
--- a/score/message_passing/unix_domain/unix_domain_server.cpp
+++ b/score/message_passing/unix_domain/unix_domain_server.cpp
@@ -237,7 +237,13 @@ void UnixDomainServer::ProcessConnect() noexcept
 {
     auto& socket = engine_->GetOsResources().socket;
 
-    const std::int32_t data_fd = socket->accept(server_fd_, nullptr, nullptr).value();
+    const auto data_fd_expected = socket->accept(server_fd_, nullptr, nullptr);
+    if (!data_fd_expected.has_value())
+    {
+        // e.g. the client is gone already, or we are (temporarily) out of file descriptors
+        return;
+    }
+    const std::int32_t data_fd = data_fd_expected.value();
 #ifdef __QNX__
     // no support for SO_PEERCRED on QNX
     ClientIdentity identity{0, 0, 0};
-- 
2.43.0


From d50bd00e392dfffb5fc0f7a4be52565a387fb90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:00 +0000
Subject: [PATCH 12/44] fix: message sizes beyond the 16 bit header field must
 not be truncated

---
 score/message_passing/unix_domain/unix_domain_engine.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/score/message_passing/unix_domain/unix_domain_engine.cpp b/score/message_passing/unix_domain/unix_domain_engine.cpp
index 1eec572..41b9311 100644
--- a/score/message_passing/unix_domain/unix_domain_engine.cpp
+++ b/score/message_passing/unix_domain/unix_domain_engine.cpp
@@ -15,6 +15,7 @@
 #include "score/message_passing/unix_domain/unix_domain_socket_address.h"
 
 #include <future>
+#include <limits>
 #include <tuple>
 
 namespace score::message_passing
@@ -190,6 +191,11 @@ score::cpp::expected_blank<score::os::Error> UnixDomainEngine::SendProtocolMessa
     std::uint8_t code,
     const score::cpp::span<const std::uint8_t> message) noexcept
 {
+    if (message.size() > std::numeric_limits<std::uint16_t>::max())
+    {
+        // does not fit into the size field of the header
+        return score::cpp::make_unexpected(score::os::Error::createFromErrno(EMSGSIZE));
+    }
     struct msghdr msg;
     std::ignore = std::memset(static_cast<void*>(&msg), 0, sizeof(msg));
     constexpr auto kVectorCount = 3UL;
@@ -249,7 +255,7 @@ score::cpp::expected<score::cpp::span<const std::uint8_t>, score::os::Error> Uni
     {
         return {};
     }
-    if (size > static_cast<std::uint16_t>(posix_receive_buffer_.size()))
+    if (static_cast<std::size_t>(size) > posix_receive_buffer_.size())
     {
         return score::cpp::make_unexpected(score::os::Error::createFromErrno(EMSGSIZE));
     }
-- 
2.43.0


From 869b7f4186b733272c4c582ad62f42115ace9b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:56 +0000
Subject: [PATCH 13/44] fix: an interrupted send of a message must be continued

---
 .../unix_domain/unix_domain_engine.cpp        | 31 ++++++++++++++++---
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/score/message_passing/unix_domain/unix_domain_engine.cpp b/score/message_passing/unix_domain/unix_domain_engine.cpp
index 41b9311..72809f8 100644
--- a/score/message_passing/unix_domain/unix_domain_engine.cpp
+++ b/score/message_passing/unix_domain/unix_domain_engine.cpp
@@ -14,6 +14,8 @@
 
 #include "score/message_passing/unix_domain/unix_domain_socket_address.h"
 
+#include <algorithm>
+#include <cerrno>
 #include <future>
 #include <limits>
 #include <tuple>
@@ -213,13 +215,32 @@ score::cpp::expected_blank<score::os::Error> UnixDomainEngine::SendProtocolMessa
     msg.msg_iovlen = kVectorCount;
 
     using MessageFlag = ::score::os::Socket::MessageFlag;
-    const auto result_expected =
-        os_resources_.socket->sendmsg(fd, &msg, MessageFlag::kWaitAll | MessageFlag::kNoSignal);
-    if (result_expected.has_value())
+    // A signal may interrupt the call, with a part of the message already sent or not. Either way, the rest of the message
+    // has to follow: the other side relies on the framing, and the senders rely on the delivery.
+    std::size_t remaining = io[0].iov_len + io[1].iov_len + io[2].iov_len;
+    while (remaining > 0U)
     {
-        return {};
+        const auto result_expected =
+            os_resources_.socket->sendmsg(fd, &msg, MessageFlag::kWaitAll | MessageFlag::kNoSignal);
+        if (!result_expected.has_value())
+        {
+            if (result_expected.error().GetOsDependentErrorCode() == EINTR)
+            {
+                continue;
+            }
+            return score::cpp::make_unexpected(result_expected.error());
+        }
+        auto sent = static_cast<std::size_t>(result_expected.value());
+        remaining -= std::min(sent, remaining);
+        for (auto& element : io)
+        {
+            const std::size_t skip = std::min(sent, element.iov_len);
+            element.iov_base = static_cast<std::uint8_t*>(element.iov_base) + skip;
+            element.iov_len -= skip;
+            sent -= skip;
+        }
     }
-    return score::cpp::make_unexpected(result_expected.error());
+    return {};
 }
 
 score::cpp::expected<score::cpp::span<const std::uint8_t>, score::os::Error> UnixDomainEngine::ReceiveProtocolMessage(
-- 
2.43.0


From 942eaf1a3a09bff7c2b5da48baa0b359d26e1383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:38 +0000
Subject: [PATCH 14/44] fix: an interrupted receive of a message must be
 continued

---
 .../unix_domain/unix_domain_engine.cpp        | 96 ++++++++++++++-----
 1 file changed, 70 insertions(+), 26 deletions(-)

diff --git a/score/message_passing/unix_domain/unix_domain_engine.cpp b/score/message_passing/unix_domain/unix_domain_engine.cpp
index 72809f8..97646a3 100644
--- a/score/message_passing/unix_domain/unix_domain_engine.cpp
+++ b/score/message_passing/unix_domain/unix_domain_engine.cpp
@@ -23,6 +23,63 @@
 namespace score::message_passing
 {
 
+namespace
+{
+// Skips the first `count` bytes of the data described by `io`
+template <std::size_t kVectorCount>
+void Advance(std::array<iovec, kVectorCount>& io, std::size_t count) noexcept
+{
+    for (auto& element : io)
+    {
+        const std::size_t skip = std::min(count, element.iov_len);
+        element.iov_base = static_cast<std::uint8_t*>(element.iov_base) + skip;
+        element.iov_len -= skip;
+        count -= skip;
+    }
+}
+
+// Receives all the data described by `io`, even if interrupted by signals in between.
+// Returns the number of the bytes received; it's less than requested only if the other side has disconnected.
+template <std::size_t kVectorCount>
+score::cpp::expected<std::size_t, score::os::Error> ReceiveAll(score::os::Socket& socket,
+                                                               const std::int32_t fd,
+                                                               std::array<iovec, kVectorCount> io) noexcept
+{
+    struct msghdr msg;
+    std::ignore = std::memset(static_cast<void*>(&msg), 0, sizeof(msg));
+    msg.msg_iov = io.data();
+    msg.msg_iovlen = kVectorCount;
+
+    std::size_t size{0U};
+    for (const auto& element : io)
+    {
+        size += element.iov_len;
+    }
+
+    std::size_t received{0U};
+    while (received < size)
+    {
+        using MessageFlag = ::score::os::Socket::MessageFlag;
+        const auto size_expected = socket.recvmsg(fd, &msg, MessageFlag::kWaitAll | MessageFlag::kNoSignal);
+        if (!size_expected.has_value())
+        {
+            if (size_expected.error().GetOsDependentErrorCode() == EINTR)
+            {
+                continue;
+            }
+            return score::cpp::make_unexpected(size_expected.error());
+        }
+        if (size_expected.value() <= 0)
+        {
+            break;
+        }
+        received += static_cast<std::size_t>(size_expected.value());
+        Advance(io, static_cast<std::size_t>(size_expected.value()));
+    }
+    return received;
+}
+}  // namespace
+
 UnixDomainEngine::UnixDomainEngine(score::cpp::pmr::memory_resource* memory_resource, LoggingCallback logger) noexcept
     : memory_resource_{memory_resource},
       os_resources_{GetDefaultOsResources(memory_resource)},
@@ -230,15 +287,9 @@ score::cpp::expected_blank<score::os::Error> UnixDomainEngine::SendProtocolMessa
             }
             return score::cpp::make_unexpected(result_expected.error());
         }
-        auto sent = static_cast<std::size_t>(result_expected.value());
+        const auto sent = static_cast<std::size_t>(result_expected.value());
         remaining -= std::min(sent, remaining);
-        for (auto& element : io)
-        {
-            const std::size_t skip = std::min(sent, element.iov_len);
-            element.iov_base = static_cast<std::uint8_t*>(element.iov_base) + skip;
-            element.iov_len -= skip;
-            sent -= skip;
-        }
+        Advance(io, sent);
     }
     return {};
 }
@@ -247,27 +298,21 @@ score::cpp::expected<score::cpp::span<const std::uint8_t>, score::os::Error> Uni
     const std::int32_t fd,
     std::uint8_t& code) noexcept
 {
-    struct msghdr msg;
-    std::ignore = std::memset(static_cast<void*>(&msg), 0, sizeof(msg));
-    constexpr auto kVectorCount = 2UL;
     std::uint16_t size{};
-    std::array<iovec, kVectorCount> io;
+    std::array<iovec, 2UL> header;
     // Deviation of MISRA RULE-6-8-3: codeql::misra_deviation_next_line(unix-domain-iovec-stack-buffers)
-    io[0].iov_base = &code;
-    io[0].iov_len = sizeof(code);
+    header[0].iov_base = &code;
+    header[0].iov_len = sizeof(code);
     // Deviation of MISRA RULE-6-8-3: codeql::misra_deviation_next_line(unix-domain-iovec-stack-buffers)
-    io[1].iov_base = &size;
-    io[1].iov_len = sizeof(size);
-    msg.msg_iov = io.data();
-    msg.msg_iovlen = kVectorCount;
+    header[1].iov_base = &size;
+    header[1].iov_len = sizeof(size);
 
-    using MessageFlag = ::score::os::Socket::MessageFlag;
-    auto size_expected = os_resources_.socket->recvmsg(fd, &msg, MessageFlag::kWaitAll | MessageFlag::kNoSignal);
+    auto size_expected = ReceiveAll(*os_resources_.socket, fd, header);
     if (!size_expected.has_value())
     {
         return score::cpp::make_unexpected(size_expected.error());
     }
-    if (size_expected.value() == 0)
+    if (size_expected.value() != (sizeof(code) + sizeof(size)))
     {
         // other side disconnected
         return score::cpp::make_unexpected(score::os::Error::createFromErrno(EPIPE));
@@ -281,12 +326,11 @@ score::cpp::expected<score::cpp::span<const std::uint8_t>, score::os::Error> Uni
         return score::cpp::make_unexpected(score::os::Error::createFromErrno(EMSGSIZE));
     }
 
-    io[0].iov_base = posix_receive_buffer_.data();
-    io[0].iov_len = static_cast<std::size_t>(size);
-    msg.msg_iovlen = 1UL;
+    std::array<iovec, 1UL> payload;
+    payload[0].iov_base = posix_receive_buffer_.data();
+    payload[0].iov_len = static_cast<std::size_t>(size);
 
-    using MessageFlag = ::score::os::Socket::MessageFlag;
-    size_expected = os_resources_.socket->recvmsg(fd, &msg, MessageFlag::kWaitAll | MessageFlag::kNoSignal);
+    size_expected = ReceiveAll(*os_resources_.socket, fd, payload);
     if (!size_expected.has_value())
     {
         return score::cpp::make_unexpected(size_expected.error());
-- 
2.43.0


From 414449f9decd54b8dd411cc266bbf385f51f3056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:36 +0000
Subject: [PATCH 15/44] fix: a descriptor must not be closed and reused while a
 client connection is about to send on it

---
 score/message_passing/client_connection.cpp | 48 +++++++++++----------
 score/message_passing/client_connection.h   | 31 ++++++++++++-
 2 files changed, 55 insertions(+), 24 deletions(-)

diff --git a/score/message_passing/client_connection.cpp b/score/message_passing/client_connection.cpp
index 2fb502a..0efaa3f 100644
--- a/score/message_passing/client_connection.cpp
+++ b/score/message_passing/client_connection.cpp
@@ -44,7 +44,7 @@ ClientConnection::ClientConnection(std::shared_ptr<ISharedResourceEngine> engine
       max_send_size_{protocol_config.max_send_size},
       max_receive_size_{std::max(protocol_config.max_reply_size, protocol_config.max_notify_size)},
       client_config_{client_config},
-      client_fd_{-1},
+      descriptor_{},
       state_{State::kStopped},
       stop_reason_{StopReason::kInit},
       callback_context_{score::cpp::pmr::make_shared<CallbackContext>(engine_->GetMemoryResource())},
@@ -115,16 +115,19 @@ score::cpp::expected_blank<score::os::Error> ClientConnection::Send(
     {
         return score::cpp::make_unexpected(score::os::Error::createFromErrno(EINVAL));
     }
-    if (!client_config_.fully_ordered && !client_config_.truly_async)
-    {
-        return engine_->SendProtocolMessage(client_fd_, score::cpp::to_underlying(ClientToServer::SEND), message);
-    }
-    std::lock_guard<std::mutex> guard{send_mutex_};
+    std::unique_lock<std::mutex> lock{send_mutex_};
     if (state_ != State::kReady)
     {
         // stopped while we were waiting for the lock
         return score::cpp::make_unexpected(score::os::Error::createFromErrno(EINVAL));
     }
+    if (!client_config_.fully_ordered && !client_config_.truly_async)
+    {
+        const auto descriptor = descriptor_;
+        lock.unlock();
+        return engine_->SendProtocolMessage(
+            descriptor->Get(), score::cpp::to_underlying(ClientToServer::SEND), message);
+    }
     if (!waiting_for_reply_.has_value())
     {
         if (client_config_.truly_async)
@@ -137,7 +140,8 @@ score::cpp::expected_blank<score::os::Error> ClientConnection::Send(
         }
         else
         {
-            return engine_->SendProtocolMessage(client_fd_, score::cpp::to_underlying(ClientToServer::SEND), message);
+            return engine_->SendProtocolMessage(
+                descriptor_->Get(), score::cpp::to_underlying(ClientToServer::SEND), message);
         }
     }
     else
@@ -215,9 +219,10 @@ score::cpp::expected<score::cpp::span<const std::uint8_t>, score::os::Error> Cli
     {
         waiting_for_reply_ = std::move(callback);
         const auto taken_callbacks = taken_callbacks_;
+        const auto descriptor = descriptor_;
         lock.unlock();
-        const auto expected =
-            engine_->SendProtocolMessage(client_fd_, score::cpp::to_underlying(ClientToServer::REQUEST), message);
+        const auto expected = engine_->SendProtocolMessage(
+            descriptor->Get(), score::cpp::to_underlying(ClientToServer::REQUEST), message);
         lock.lock();
         // If our callback is already taken out of waiting_for_reply_ (by SwitchToStopState()), it refers to our local
         // variables; we need to wait till it's called. Otherwise, it's still in waiting_for_reply_.
@@ -274,8 +279,8 @@ score::cpp::expected_blank<score::os::Error> ClientConnection::SendWithCallback(
     }
     else
     {
-        const auto expected =
-            engine_->SendProtocolMessage(client_fd_, score::cpp::to_underlying(ClientToServer::REQUEST), message);
+        const auto expected = engine_->SendProtocolMessage(
+            descriptor_->Get(), score::cpp::to_underlying(ClientToServer::REQUEST), message);
         if (!expected.has_value())
         {
             return score::cpp::make_unexpected(expected.error());
@@ -424,14 +429,14 @@ void ClientConnection::TryConnect() noexcept
 
     const std::shared_ptr<CallbackContext> context{callback_context_};
     const std::lock_guard<std::recursive_mutex> guard{context->finalize_mutex};
-    client_fd_ = fd_expected.value();
+    descriptor_ = score::cpp::pmr::make_shared<Descriptor>(engine_->GetMemoryResource(), engine_, fd_expected.value());
     if (state_ != State::kStarting)
     {
-        // Stop() got called in background; client_fd_ will be closed in SwitchToStopState()
+        // Stop() got called in background; the descriptor will be closed in SwitchToStopState()
         return;
     }
     posix_endpoint_.owner = this;
-    posix_endpoint_.fd = client_fd_;
+    posix_endpoint_.fd = descriptor_->Get();
     posix_endpoint_.max_receive_size = max_receive_size_;
     posix_endpoint_.input = [this]() noexcept {
         StopReason stop_reason = ProcessInputEvent();
@@ -471,7 +476,7 @@ void ClientConnection::TryConnect() noexcept
 IClientConnection::StopReason ClientConnection::ProcessInputEvent() noexcept
 {
     std::uint8_t code{};
-    auto message_expected = engine_->ReceiveProtocolMessage(client_fd_, code);
+    auto message_expected = engine_->ReceiveProtocolMessage(descriptor_->Get(), code);
     if (!message_expected.has_value())
     {
         auto os_code = message_expected.error().GetOsDependentErrorCode();
@@ -560,7 +565,7 @@ void ClientConnection::ProcessSendQueueUnderLock(std::unique_lock<std::mutex>& l
             // indefinite delay.
             lock.unlock();
             const auto expected = engine_->SendProtocolMessage(
-                client_fd_, score::cpp::to_underlying(ClientToServer::REQUEST), send.message);
+                descriptor_->Get(), score::cpp::to_underlying(ClientToServer::REQUEST), send.message);
             lock.lock();
             send_pool_.push_front(send);
             if (expected.has_value())
@@ -583,8 +588,8 @@ void ClientConnection::ProcessSendQueueUnderLock(std::unique_lock<std::mutex>& l
             waiting_for_reply_ = ReplyCallback{};
             lock.unlock();
             // nowhere to return the potential error
-            score::cpp::ignore =
-                engine_->SendProtocolMessage(client_fd_, score::cpp::to_underlying(ClientToServer::SEND), send.message);
+            score::cpp::ignore = engine_->SendProtocolMessage(
+                descriptor_->Get(), score::cpp::to_underlying(ClientToServer::SEND), send.message);
             lock.lock();
             send_pool_.push_front(send);
             waiting_for_reply_.reset();
@@ -622,12 +627,9 @@ void ClientConnection::SwitchToStopState() noexcept
         const std::lock_guard<std::mutex> barrier{send_mutex_};
     }
     engine_->CleanUpOwner(this);
-    if (client_fd_ != -1)
-    {
-        engine_->CloseClientConnection(client_fd_);
-        client_fd_ = -1;
-    }
     std::unique_lock<std::mutex> lock{send_mutex_};
+    // closed right here, unless there are still senders that use it; then it's closed by the last of them
+    descriptor_.reset();
     if (waiting_for_reply_)
     {
         auto callback = std::move(*waiting_for_reply_);
diff --git a/score/message_passing/client_connection.h b/score/message_passing/client_connection.h
index 3589577..2226c82 100644
--- a/score/message_passing/client_connection.h
+++ b/score/message_passing/client_connection.h
@@ -91,7 +91,36 @@ class ClientConnection final : public IClientConnection
     const std::uint32_t max_receive_size_;
     const IClientFactory::ClientConfig client_config_;
 
-    std::int32_t client_fd_;
+    // A sender that does not hold send_mutex_ while sending shares the ownership of the descriptor. Otherwise, the
+    // descriptor might be closed in background and reused for something else before the sender gets to using it.
+    class Descriptor
+    {
+      public:
+        Descriptor(std::shared_ptr<ISharedResourceEngine> engine, const std::int32_t fd) noexcept
+            : engine_{std::move(engine)}, fd_{fd}
+        {
+        }
+        ~Descriptor() noexcept
+        {
+            engine_->CloseClientConnection(fd_);
+        }
+
+        Descriptor(const Descriptor&) = delete;
+        Descriptor(Descriptor&&) = delete;
+        Descriptor& operator=(const Descriptor&) = delete;
+        Descriptor& operator=(Descriptor&&) = delete;
+
+        std::int32_t Get() const noexcept
+        {
+            return fd_;
+        }
+
+      private:
+        const std::shared_ptr<ISharedResourceEngine> engine_;
+        const std::int32_t fd_;
+    };
+    std::shared_ptr<Descriptor> descriptor_;
+
     std::atomic<State> state_;
     std::atomic<StopReason> stop_reason_;
 
-- 
2.43.0


From 6f0f4f75ccf76309eaec926cd7d1abed6f713117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:40 +0000
Subject: [PATCH 16/44] fix: concurrent sends of big messages must not be
 interleaved on a client connection

---
 score/message_passing/client_connection.cpp | 18 ++++++------------
 score/message_passing/client_connection.h   |  9 +++++++++
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/score/message_passing/client_connection.cpp b/score/message_passing/client_connection.cpp
index 0efaa3f..4af8f9a 100644
--- a/score/message_passing/client_connection.cpp
+++ b/score/message_passing/client_connection.cpp
@@ -125,8 +125,7 @@ score::cpp::expected_blank<score::os::Error> ClientConnection::Send(
     {
         const auto descriptor = descriptor_;
         lock.unlock();
-        return engine_->SendProtocolMessage(
-            descriptor->Get(), score::cpp::to_underlying(ClientToServer::SEND), message);
+        return descriptor->Send(score::cpp::to_underlying(ClientToServer::SEND), message);
     }
     if (!waiting_for_reply_.has_value())
     {
@@ -140,8 +139,7 @@ score::cpp::expected_blank<score::os::Error> ClientConnection::Send(
         }
         else
         {
-            return engine_->SendProtocolMessage(
-                descriptor_->Get(), score::cpp::to_underlying(ClientToServer::SEND), message);
+            return descriptor_->Send(score::cpp::to_underlying(ClientToServer::SEND), message);
         }
     }
     else
@@ -221,8 +219,7 @@ score::cpp::expected<score::cpp::span<const std::uint8_t>, score::os::Error> Cli
         const auto taken_callbacks = taken_callbacks_;
         const auto descriptor = descriptor_;
         lock.unlock();
-        const auto expected = engine_->SendProtocolMessage(
-            descriptor->Get(), score::cpp::to_underlying(ClientToServer::REQUEST), message);
+        const auto expected = descriptor->Send(score::cpp::to_underlying(ClientToServer::REQUEST), message);
         lock.lock();
         // If our callback is already taken out of waiting_for_reply_ (by SwitchToStopState()), it refers to our local
         // variables; we need to wait till it's called. Otherwise, it's still in waiting_for_reply_.
@@ -279,8 +276,7 @@ score::cpp::expected_blank<score::os::Error> ClientConnection::SendWithCallback(
     }
     else
     {
-        const auto expected = engine_->SendProtocolMessage(
-            descriptor_->Get(), score::cpp::to_underlying(ClientToServer::REQUEST), message);
+        const auto expected = descriptor_->Send(score::cpp::to_underlying(ClientToServer::REQUEST), message);
         if (!expected.has_value())
         {
             return score::cpp::make_unexpected(expected.error());
@@ -564,8 +560,7 @@ void ClientConnection::ProcessSendQueueUnderLock(std::unique_lock<std::mutex>& l
             // temporarily, as the other side of SendProtocolMessage is not under our control and it may cause
             // indefinite delay.
             lock.unlock();
-            const auto expected = engine_->SendProtocolMessage(
-                descriptor_->Get(), score::cpp::to_underlying(ClientToServer::REQUEST), send.message);
+            const auto expected = descriptor_->Send(score::cpp::to_underlying(ClientToServer::REQUEST), send.message);
             lock.lock();
             send_pool_.push_front(send);
             if (expected.has_value())
@@ -588,8 +583,7 @@ void ClientConnection::ProcessSendQueueUnderLock(std::unique_lock<std::mutex>& l
             waiting_for_reply_ = ReplyCallback{};
             lock.unlock();
             // nowhere to return the potential error
-            score::cpp::ignore = engine_->SendProtocolMessage(
-                descriptor_->Get(), score::cpp::to_underlying(ClientToServer::SEND), send.message);
+            score::cpp::ignore = descriptor_->Send(score::cpp::to_underlying(ClientToServer::SEND), send.message);
             lock.lock();
             send_pool_.push_front(send);
             waiting_for_reply_.reset();
diff --git a/score/message_passing/client_connection.h b/score/message_passing/client_connection.h
index 2226c82..1ff8810 100644
--- a/score/message_passing/client_connection.h
+++ b/score/message_passing/client_connection.h
@@ -115,9 +115,18 @@ class ClientConnection final : public IClientConnection
             return fd_;
         }
 
+        // The transport does not guarantee that concurrent sends of big messages are not interleaved
+        score::cpp::expected_blank<score::os::Error> Send(const std::uint8_t code,
+                                                          const score::cpp::span<const std::uint8_t> message) noexcept
+        {
+            const std::lock_guard<std::mutex> guard{mutex_};
+            return engine_->SendProtocolMessage(fd_, code, message);
+        }
+
       private:
         const std::shared_ptr<ISharedResourceEngine> engine_;
         const std::int32_t fd_;
+        std::mutex mutex_{};
     };
     std::shared_ptr<Descriptor> descriptor_;
 
-- 
2.43.0


From 5944515dd3adff0534ea434e3d74f6693e126959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:54 +0000
Subject: [PATCH 17/44] fix: concurrent sends of big messages must not be
 interleaved on a server connection

---
 score/message_passing/unix_domain/unix_domain_engine.cpp | 4 ++--
 score/message_passing/unix_domain/unix_domain_server.cpp | 2 ++
 score/message_passing/unix_domain/unix_domain_server.h   | 1 +
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/score/message_passing/unix_domain/unix_domain_engine.cpp b/score/message_passing/unix_domain/unix_domain_engine.cpp
index 97646a3..d4c5e46 100644
--- a/score/message_passing/unix_domain/unix_domain_engine.cpp
+++ b/score/message_passing/unix_domain/unix_domain_engine.cpp
@@ -272,8 +272,8 @@ score::cpp::expected_blank<score::os::Error> UnixDomainEngine::SendProtocolMessa
     msg.msg_iovlen = kVectorCount;
 
     using MessageFlag = ::score::os::Socket::MessageFlag;
-    // A signal may interrupt the call, with a part of the message already sent or not. Either way, the rest of the message
-    // has to follow: the other side relies on the framing, and the senders rely on the delivery.
+    // A signal may interrupt the call, with a part of the message already sent or not. Either way, the rest of the
+    // message has to follow: the other side relies on the framing, and the senders rely on the delivery.
     std::size_t remaining = io[0].iov_len + io[1].iov_len + io[2].iov_len;
     while (remaining > 0U)
     {
diff --git a/score/message_passing/unix_domain/unix_domain_server.cpp b/score/message_passing/unix_domain/unix_domain_server.cpp
index e350690..296521f 100644
--- a/score/message_passing/unix_domain/unix_domain_server.cpp
+++ b/score/message_passing/unix_domain/unix_domain_server.cpp
@@ -77,6 +77,7 @@ score::cpp::expected_blank<score::os::Error> UnixDomainServer::ServerConnection:
     {
         return score::cpp::make_unexpected(score::os::Error::createFromErrno(EMSGSIZE));
     }
+    const std::lock_guard<std::mutex> guard{send_mutex_};  // concurrent sends of big messages could be interleaved
     return server_.engine_->SendProtocolMessage(
         endpoint_.fd, score::cpp::to_underlying(ServerToClient::REPLY), message);
 }
@@ -88,6 +89,7 @@ score::cpp::expected_blank<score::os::Error> UnixDomainServer::ServerConnection:
     {
         return score::cpp::make_unexpected(score::os::Error::createFromErrno(EMSGSIZE));
     }
+    const std::lock_guard<std::mutex> guard{send_mutex_};  // concurrent sends of big messages could be interleaved
     return server_.engine_->SendProtocolMessage(
         endpoint_.fd, score::cpp::to_underlying(ServerToClient::NOTIFY), message);
 }
diff --git a/score/message_passing/unix_domain/unix_domain_server.h b/score/message_passing/unix_domain/unix_domain_server.h
index 8f03c3f..10b21ce 100644
--- a/score/message_passing/unix_domain/unix_domain_server.h
+++ b/score/message_passing/unix_domain/unix_domain_server.h
@@ -56,6 +56,7 @@ class UnixDomainServer final : public IServer
         ClientIdentity client_identity_;
         std::int32_t fd_;
         ISharedResourceEngine::PosixEndpointEntry endpoint_;
+        std::mutex send_mutex_{};
         score::cpp::pmr::unique_ptr<ServerConnection> self_;
     };
 
-- 
2.43.0


From 2604337e099a17f7e15acad79f8eceb2f52b545a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:08 +0000
Subject: [PATCH 18/44] fix: service discovery keeps the order of offers and
 withdrawals that are read in one go

---
 .../client/service_discovery_client.cpp              | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/score/mw/com/impl/bindings/lola/service_discovery/client/service_discovery_client.cpp b/score/mw/com/impl/bindings/lola/service_discovery/client/service_discovery_client.cpp
index d94884c..0fb5ea4 100644
--- a/score/mw/com/impl/bindings/lola/service_discovery/client/service_discovery_client.cpp
+++ b/score/mw/com/impl/bindings/lola/service_discovery/client/service_discovery_client.cpp
@@ -411,12 +411,24 @@ auto ServiceDiscoveryClient::HandleEvents(
             std::terminate();
         }
 
+        // Deletions and creations are handled in groups, but never overtake each other: an offer and its withdrawal that
+        // are read in one go have to leave the service as not offered.
         if (inode_was_removed)
         {
+            if (!creation_events.empty())
+            {
+                HandleCreationEvents(creation_events);
+                creation_events.clear();
+            }
             deletion_events.push_back(event);
         }
         else if (inode_was_created)
         {
+            if (!deletion_events.empty())
+            {
+                HandleDeletionEvents(deletion_events);
+                deletion_events.clear();
+            }
             creation_events.push_back(event);
         }
         else
-- 
2.43.0


From e8216bdd8143775ecaebd20f0f2abb1cb96a171d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:48 +0000
Subject: [PATCH 19/44] fix: an offer after a withdrawal with proxies still
 attached must not terminate the provider

StopOffer keeps the shared memory open if proxies still use it. If these are gone at the next offer, the stale memory
is removed, for which it must not be open in this process any more.
---
 .../mw/com/impl/bindings/lola/skeleton_memory_manager.cpp | 8 +++++++-
 score/mw/com/impl/bindings/lola/skeleton_memory_manager.h | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp b/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp
index dabb70b..582a911 100644
--- a/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp
+++ b/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp
@@ -357,8 +357,14 @@ void SkeletonMemoryManager::RemoveSharedMemory()
     control_asil_resource_.reset();
 }
 
-void SkeletonMemoryManager::RemoveStaleSharedMemoryArtefacts() const
+void SkeletonMemoryManager::RemoveStaleSharedMemoryArtefacts()
 {
+    // If the memory was kept at the last stop offer because proxies were still using it, then it is still open here.
+    Reset();
+    storage_resource_.reset();
+    control_qm_resource_.reset();
+    control_asil_resource_.reset();
+
     const auto control_qm_path =
         GetControlChannelShmPath(lola_service_instance_deployment_, QualityType::kASIL_QM, shm_path_builder_);
     const auto control_asil_b_path =
diff --git a/score/mw/com/impl/bindings/lola/skeleton_memory_manager.h b/score/mw/com/impl/bindings/lola/skeleton_memory_manager.h
index 3a596f0..431f434 100644
--- a/score/mw/com/impl/bindings/lola/skeleton_memory_manager.h
+++ b/score/mw/com/impl/bindings/lola/skeleton_memory_manager.h
@@ -148,7 +148,7 @@ class SkeletonMemoryManager final
 
     /// \brief Removes stale shared memory artefacts from the filesystem in case a process crashed while creating a
     ///        SharedMemoryResource.
-    void RemoveStaleSharedMemoryArtefacts() const;
+    void RemoveStaleSharedMemoryArtefacts();
 
     /// \brief Cleans up all allocated slots for this SkeletonEvent of any previous running instance
     /// \details Note: Only invoke _after_ a crash was detected!
-- 
2.43.0


From dde56cc7cd3a39202cfddc56aa4b8b286dace259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:48 +0000
Subject: [PATCH 20/44] fix: opening a shared memory while another thread of
 the process closes it must not terminate

The last owner of a SharedMemoryResource is gone before its destructor has removed it from the MemoryResourceRegistry.
Opening it again in this window found the old entry and terminated.
---
 score/memory/shared/shared_memory_resource.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/score/memory/shared/shared_memory_resource.cpp b/score/memory/shared/shared_memory_resource.cpp
index cc67488..88bc672 100644
--- a/score/memory/shared/shared_memory_resource.cpp
+++ b/score/memory/shared/shared_memory_resource.cpp
@@ -962,7 +962,16 @@ auto SharedMemoryResource::mapMemoryIntoProcess() noexcept -> void
     }
 
     this->base_address_ = result.value();
-    const bool inserted = MemoryResourceRegistry::getInstance().insert_resource({memory_identifier_, this});
+    // Another thread of this process might just be destroying the previous SharedMemoryResource with this identifier: its
+    // last owner is gone, but its destructor did not yet remove it from the registry. Therefore, we wait for it.
+    constexpr std::chrono::milliseconds timeout{500};
+    constexpr std::chrono::milliseconds retry_after{10};
+    bool inserted = MemoryResourceRegistry::getInstance().insert_resource({memory_identifier_, this});
+    for (std::chrono::milliseconds waited{0}; (!inserted) && (waited < timeout); waited += retry_after)
+    {
+        std::this_thread::sleep_for(retry_after);
+        inserted = MemoryResourceRegistry::getInstance().insert_resource({memory_identifier_, this});
+    }
     if (!inserted)
     {
         ::score::mw::log::LogFatal("shm")
-- 
2.43.0


From 8a4ef85db92ba9e1ec6c069e00cc20736c0617e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:48 +0000
Subject: [PATCH 21/44] fix: a proxy must not roll back the live transactions
 of another proxy of its process

The creator of the rollback mutex could be overtaken before it locked it. The other proxy then did not wait for the
preparation of the rollback, and its transactions were rolled back while it was already subscribed.
---
 .../lola/rollback_synchronization.cpp         | 19 +++++++++++++++++++
 .../bindings/lola/rollback_synchronization.h  | 10 ++++++++++
 .../transaction_log_rollback_executor.cpp     |  9 ++++-----
 3 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/rollback_synchronization.cpp b/score/mw/com/impl/bindings/lola/rollback_synchronization.cpp
index b286b6d..cd4dfa2 100644
--- a/score/mw/com/impl/bindings/lola/rollback_synchronization.cpp
+++ b/score/mw/com/impl/bindings/lola/rollback_synchronization.cpp
@@ -20,6 +20,25 @@ std::pair<std::mutex&, bool> RollbackSynchronization::GetMutex(
     const SkeletonInstanceIdentifier skeleton_instance_identifier)
 {
     const std::lock_guard<std::mutex> lock{map_mutex_};
+    return FindOrCreateMutex(skeleton_instance_identifier);
+}
+
+std::pair<std::unique_lock<std::mutex>, bool> RollbackSynchronization::LockMutex(
+    const SkeletonInstanceIdentifier skeleton_instance_identifier)
+{
+    std::unique_lock<std::mutex> map_lock{map_mutex_};
+    const auto mutex_and_existed = FindOrCreateMutex(skeleton_instance_identifier);
+    if (mutex_and_existed.second)
+    {
+        // Its owner might hold it for a while. So don't block the users of other service instances meanwhile.
+        map_lock.unlock();
+    }
+    return {std::unique_lock<std::mutex>{mutex_and_existed.first}, mutex_and_existed.second};
+}
+
+std::pair<std::mutex&, bool> RollbackSynchronization::FindOrCreateMutex(
+    const SkeletonInstanceIdentifier skeleton_instance_identifier)
+{
     auto search = synchronisation_data_map_.find(skeleton_instance_identifier);
     if (search != synchronisation_data_map_.end())
     {
diff --git a/score/mw/com/impl/bindings/lola/rollback_synchronization.h b/score/mw/com/impl/bindings/lola/rollback_synchronization.h
index 1dcdf2f..2986463 100644
--- a/score/mw/com/impl/bindings/lola/rollback_synchronization.h
+++ b/score/mw/com/impl/bindings/lola/rollback_synchronization.h
@@ -38,7 +38,17 @@ class RollbackSynchronization
     ///         whether the mutex already existed (true) or had been created within the call (false)
     std::pair<std::mutex&, bool> GetMutex(const SkeletonInstanceIdentifier skeleton_instance_identifier);
 
+    /// \brief Locks the mutex for the given skeleton_instance_identifier. If it does not exist yet, it is created and
+    ///        locked in one step, i.e. whoever finds it existing, gets the lock only after its creator released it.
+    /// \return a pair, consisting of the lock and a bool, indicating, whether the mutex already existed (true) or had been
+    ///         created within the call (false)
+    std::pair<std::unique_lock<std::mutex>, bool> LockMutex(
+        const SkeletonInstanceIdentifier skeleton_instance_identifier);
+
   private:
+    /// \brief Does the work of GetMutex(). Has to be called with map_mutex_ locked.
+    std::pair<std::mutex&, bool> FindOrCreateMutex(const SkeletonInstanceIdentifier skeleton_instance_identifier);
+
     std::unordered_map<SkeletonInstanceIdentifier, std::mutex> synchronisation_data_map_{};
     /// \brief mutex to synchronize access to synchronisation_data_map_
     std::mutex map_mutex_{};
diff --git a/score/mw/com/impl/bindings/lola/transaction_log_rollback_executor.cpp b/score/mw/com/impl/bindings/lola/transaction_log_rollback_executor.cpp
index 69c8430..81c2c44 100644
--- a/score/mw/com/impl/bindings/lola/transaction_log_rollback_executor.cpp
+++ b/score/mw/com/impl/bindings/lola/transaction_log_rollback_executor.cpp
@@ -101,11 +101,10 @@ Result<void> TransactionLogRollbackExecutor::RollbackTransactionLogs() noexcept
     auto& lola_runtime = GetBindingRuntime<lola::IRuntime>(BindingType::kLoLa);
     auto& rollback_synchronization = lola_runtime.GetRollbackSynchronization();
 
-    auto [lock, mutex_existed] = rollback_synchronization.GetMutex(skeleton_instance_identifier_);
-    // Suppress Autosar C++14 A8-5-3 states that auto variables shall not be initialized using braced initialization.
-    // This is a false positive, we don't use auto here
-    // coverity[autosar_cpp14_a8_5_3_violation : FALSE]
-    std::lock_guard map_lock{lock};
+    // The one, which creates the mutex, locks it in the same step, so that no other Proxy instance can overtake it before
+    // it has prepared the rollback.
+    const auto lock_and_mutex_existed = rollback_synchronization.LockMutex(skeleton_instance_identifier_);
+    const bool mutex_existed = lock_and_mutex_existed.second;
 
     // If another Proxy instance has already prepared the rollback for the given service_data_control_ (the special case
     // where we have more than one proxy instance in the same process, which uses the same service instance ->
-- 
2.43.0


From b6a400d53b1e7e915ad2a98e0ece1a857f8e6f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:38 +0000
Subject: [PATCH 22/44] fix: a proxy has to release the usage marker only after
 its shared memory is closed

Otherwise a skeleton of the same process regards the shared memory as unused while it is still open and
terminates when it removes the stale artefacts.
---
 score/mw/com/impl/bindings/lola/proxy.cpp | 4 ++--
 score/mw/com/impl/bindings/lola/proxy.h   | 9 ++++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/proxy.cpp b/score/mw/com/impl/bindings/lola/proxy.cpp
index 589126b..8657f2f 100644
--- a/score/mw/com/impl/bindings/lola/proxy.cpp
+++ b/score/mw/com/impl/bindings/lola/proxy.cpp
@@ -437,6 +437,8 @@ Proxy::Proxy(std::shared_ptr<memory::shared::ManagedMemoryResource> control,
              score::filesystem::Filesystem filesystem,
              ProxyInstanceIdentifier::ProxyInstanceCounter proxy_instance_counter)
     : ProxyBinding{},
+      service_instance_usage_marker_file_{std::move(service_instance_usage_marker_file)},
+      service_instance_usage_flock_mutex_and_lock_{std::move(service_instance_usage_flock_mutex_and_lock)},
       control_{std::move(control)},
       data_{std::move(data)},
       method_shm_resource_{nullptr},
@@ -446,8 +448,6 @@ Proxy::Proxy(std::shared_ptr<memory::shared::ManagedMemoryResource> control,
       event_bindings_{},
       proxy_event_registration_mutex_{},
       is_service_instance_available_{false},
-      service_instance_usage_marker_file_{std::move(service_instance_usage_marker_file)},
-      service_instance_usage_flock_mutex_and_lock_{std::move(service_instance_usage_flock_mutex_and_lock)},
       proxy_methods_{},
       method_data_{nullptr},
       proxy_instance_identifier_{GetBindingRuntime<lola::IRuntime>(BindingType::kLoLa).GetApplicationId(),
diff --git a/score/mw/com/impl/bindings/lola/proxy.h b/score/mw/com/impl/bindings/lola/proxy.h
index a4171d2..7e07c04 100644
--- a/score/mw/com/impl/bindings/lola/proxy.h
+++ b/score/mw/com/impl/bindings/lola/proxy.h
@@ -227,6 +227,12 @@ class Proxy : public ProxyBinding
             enabled_method_data) const;
     std::string GetMethodChannelShmName() const;
 
+    /// The usage marker tells the skeleton that the shared memory is in use. Therefore these members have to be declared
+    /// before (i.e. are destroyed after) the shared memory resources.
+    std::optional<memory::shared::LockFile> service_instance_usage_marker_file_;
+    std::unique_ptr<score::memory::shared::FlockMutexAndLock<score::memory::shared::SharedFlockMutex>>
+        service_instance_usage_flock_mutex_and_lock_;
+
     std::shared_ptr<memory::shared::ManagedMemoryResource> control_;
     std::shared_ptr<memory::shared::ManagedMemoryResource> data_;
     std::shared_ptr<memory::shared::ManagedMemoryResource> method_shm_resource_;
@@ -241,9 +247,6 @@ class Proxy : public ProxyBinding
     /// currently registered Proxy service elements.
     std::mutex proxy_event_registration_mutex_;
     bool is_service_instance_available_;
-    std::optional<memory::shared::LockFile> service_instance_usage_marker_file_;
-    std::unique_ptr<score::memory::shared::FlockMutexAndLock<score::memory::shared::SharedFlockMutex>>
-        service_instance_usage_flock_mutex_and_lock_;
     /// Mutex which synchronises registration of Proxy methods via Proxy::RegisterMethod with the
     /// FindServiceHandler in find_service_guard_ which will call ServiceAvailabilityChangeHandler iterating over
     /// proxy_methods_.
-- 
2.43.0


From 4c441bb354e202a544bba4175fd4013b649759a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:38 +0000
Subject: [PATCH 23/44] fix: a late unregistration must not revoke a newer
 registration for event notification

The counter of registrations is changed under a lock, but the messages were sent after its release. So they
could overtake each other and a registered handler was never notified again.
---
 .../message_passing_service_instance.cpp      | 24 ++++++++++++++-----
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp b/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp
index 5818201..b24154a 100644
--- a/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp
+++ b/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp
@@ -1370,8 +1370,15 @@ void MessagePassingServiceInstance::UnregisterEventNotificationRemote(
     const IMessagePassingService::HandlerRegistrationNoType registration_no,
     const pid_t target_node_id) noexcept
 {
-    bool send_message{false};
+    // Fetching the client can take long, if a connection is being set up. So this shall not happen under the lock.
+    // Suppress "AUTOSAR C++14 A18-5-8" rule finding. This rule states: "Objects that do not outlive a function
+    // shall have automatic storage duration". The object is a shared_ptr which is allocated in the heap.
+    // coverity[autosar_cpp14_a18_5_8_violation]
+    auto sender = client_cache_.GetCachedMessagePassingClient(target_node_id);
+
+    // The lock is held until the message is sent. Otherwise the message could revoke a newer registration.
     std::unique_lock<std::shared_mutex> remote_reg_write_lock(event_update_remote_registrations_mutex_);
+    bool send_message{false};
     auto registration_count = event_update_remote_registrations_.find(event_id);
     if (registration_count == event_update_remote_registrations_.end())
     {
@@ -1409,17 +1416,12 @@ void MessagePassingServiceInstance::UnregisterEventNotificationRemote(
             send_message = true;
             score::cpp::ignore = event_update_remote_registrations_.erase(registration_count);
         }
-        remote_reg_write_lock.unlock();
     }
 
     if (send_message)
     {
         const auto message =
             SerializeToMessage(score::cpp::to_underlying(MessageType::kUnregisterEventNotifier), event_id);
-        // Suppress "AUTOSAR C++14 A18-5-8" rule finding. This rule states: "Objects that do not outlive a function
-        // shall have automatic storage duration". The object is a shared_ptr which is allocated in the heap.
-        // coverity[autosar_cpp14_a18_5_8_violation]
-        auto sender = client_cache_.GetCachedMessagePassingClient(target_node_id);
 
         // Unregistering is best-effort. There are two possible scenarios when the channel might not be ready when we
         // try to unregister for event notifications:
@@ -1455,6 +1457,16 @@ void MessagePassingServiceInstance::SendRegisterEventNotificationMessage(const E
     // The object is a shared_ptr which is allocated in the heap.
     // coverity[autosar_cpp14_a18_5_8_violation]
     auto sender = client_cache_.GetMessagePassingClient(target_node_id);
+
+    // While the connection was set up, the registration could have been revoked (and the provider been told so).
+    std::unique_lock<std::shared_mutex> remote_reg_write_lock(event_update_remote_registrations_mutex_);
+    const auto registration_count = event_update_remote_registrations_.find(event_id);
+    if ((registration_count == event_update_remote_registrations_.end()) ||
+        (registration_count->second.node_id != target_node_id))
+    {
+        return;
+    }
+
     const auto result = sender->Send(message);
     if (!result.has_value())
     {
-- 
2.43.0


From 843d5d9833b94760ee8d6d84129d9329c45134f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:38 +0000
Subject: [PATCH 24/44] fix: a proxy has to re-register for event notification
 after another proxy of its process unregistered

After a restart of the provider the first proxy to re-register resets the count. If its handler is removed
before the next proxy re-registers, there is no registration left and the handler of the latter was lost.
---
 .../lola/messaging/message_passing_service_instance.cpp  | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp b/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp
index b24154a..682c35c 100644
--- a/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp
+++ b/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp
@@ -1124,9 +1124,14 @@ void MessagePassingServiceInstance::ReregisterEventNotification(const ElementFqI
         auto registration_count = event_update_remote_registrations_.find(event_id);
         if (registration_count == event_update_remote_registrations_.end())
         {
+            // Another proxy already re-registered the event with the new remote pid and has unregistered since then,
+            // which removed the registration as the handler of our proxy was not counted for the new remote pid yet.
+            score::cpp::ignore =
+                event_update_remote_registrations_.emplace(std::piecewise_construct,
+                                                           std::forward_as_tuple(event_id),
+                                                           std::forward_as_tuple(NodeCounter{target_node_id, 1U}));
             remote_reg_write_lock.unlock();
-            score::mw::log::LogError("lola") << "MessagePassingService: ReregisterEventNotification for a remote event "
-                                             << event_id.ToString() << " without current remote registration!";
+            SendRegisterEventNotificationMessage(event_id, target_node_id);
             return;
         }
         if (registration_count->second.node_id == target_node_id)
-- 
2.43.0


From 2d65862f0f89f7a55ed98615c4502a6f11467cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:38 +0000
Subject: [PATCH 25/44] fix: event notification must not stay disabled when
 local and remote handlers change concurrently

The status told to the skeleton event was derived from a look at the other kind of handlers at another time
than the change, and the notifications could overtake each other.
---
 .../message_passing_service_instance.cpp      | 138 +++++-------------
 .../message_passing_service_instance.h        |  14 +-
 2 files changed, 51 insertions(+), 101 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp b/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp
index 682c35c..e7117ae 100644
--- a/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp
+++ b/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp
@@ -473,13 +473,6 @@ void MessagePassingServiceInstance::HandleRegisterNotificationMsg(const score::c
     bool already_registered{false};
     bool notify_status_change = false;
 
-    // Check if there are local handlers first (to maintain lock hierarchy: handlers before nodes)
-    std::shared_lock<std::shared_mutex> handlers_read_lock(event_update_handlers_mutex_);
-    auto handlers_search = event_update_handlers_.find(elementFqId);
-    const bool has_local_handlers =
-        (handlers_search != event_update_handlers_.end()) && (!handlers_search->second.empty());
-    handlers_read_lock.unlock();
-
     // TODO: PMR
     std::unique_lock<std::shared_mutex> write_lock(event_update_interested_nodes_mutex_);
     auto search = event_update_interested_nodes_.find(elementFqId);
@@ -497,9 +490,6 @@ void MessagePassingServiceInstance::HandleRegisterNotificationMsg(const score::c
     }
     write_lock.unlock();
 
-    // Only notify if no local handlers exist
-    notify_status_change = notify_status_change && !has_local_handlers;
-
     if (already_registered)
     {
         score::mw::log::LogWarn("lola")
@@ -511,12 +501,7 @@ void MessagePassingServiceInstance::HandleRegisterNotificationMsg(const score::c
     // This allows SkeletonEvent to start sending NotifyEvent() calls for this event.
     if (notify_status_change)
     {
-        std::shared_lock<std::shared_mutex> callback_read_lock(handler_status_change_callbacks_mutex_);
-        auto callback_search = handler_status_change_callbacks_.find(elementFqId);
-        if (callback_search != handler_status_change_callbacks_.end())
-        {
-            callback_search->second(true);  // Now has handlers
-        }
+        NotifyHandlerStatusChange(elementFqId);
     }
 }
 
@@ -533,25 +518,14 @@ void MessagePassingServiceInstance::HandleUnregisterNotificationMsg(const score:
     bool registration_found{false};
     bool notify_status_change = false;
 
-    // Check if there are local handlers first (to maintain lock hierarchy: handlers before nodes)
-    std::shared_lock<std::shared_mutex> handlers_read_lock(event_update_handlers_mutex_);
-    auto handlers_search = event_update_handlers_.find(elementFqId);
-    const bool has_local_handlers =
-        (handlers_search != event_update_handlers_.end()) && (!handlers_search->second.empty());
-    handlers_read_lock.unlock();
-
     std::unique_lock<std::shared_mutex> write_lock(event_update_interested_nodes_mutex_);
     auto search = event_update_interested_nodes_.find(elementFqId);
     if (search != event_update_interested_nodes_.end())
     {
         registration_found = search->second.erase(sender_node_id) == 1U;
 
-        // If this was the last remote node being unregistered, we have a status change only if there are
-        // no local handlers exist.
-        if (registration_found && search->second.empty())
-        {
-            notify_status_change = !has_local_handlers;
-        }
+        // If this was the last remote node being unregistered, we might have a status change.
+        notify_status_change = registration_found && search->second.empty();
     }
     write_lock.unlock();
 
@@ -566,12 +540,7 @@ void MessagePassingServiceInstance::HandleUnregisterNotificationMsg(const score:
     // This allows SkeletonEvent to skip NotifyEvent() calls for this event to save performance.
     if (notify_status_change)
     {
-        std::shared_lock<std::shared_mutex> callback_read_lock(handler_status_change_callbacks_mutex_);
-        auto callback_search = handler_status_change_callbacks_.find(elementFqId);
-        if (callback_search != handler_status_change_callbacks_.end())
-        {
-            callback_search->second(false);  // No handlers remain
-        }
+        NotifyHandlerStatusChange(elementFqId);
     }
 }
 
@@ -1041,13 +1010,11 @@ IMessagePassingService::HandlerRegistrationNoType MessagePassingServiceInstance:
     std::weak_ptr<ScopedEventReceiveHandler> callback,
     const pid_t target_node_id) noexcept
 {
-    bool notify_status_change = false;
-
     std::unique_lock<std::shared_mutex> write_lock(event_update_handlers_mutex_);
 
     // Check if this is the first handler being registered
     auto search = event_update_handlers_.find(event_id);
-    const bool was_empty = (search == event_update_handlers_.end()) || (search->second.empty());
+    const bool notify_status_change = (search == event_update_handlers_.end()) || (search->second.empty());
 
     // The rule against increment and decrement operators mixed with others on the same line sems to be more applicable
     // to arithmetic operators. Here the only other operator is the member access operator (i.e. the dot operator) and
@@ -1066,19 +1033,6 @@ IMessagePassingService::HandlerRegistrationNoType MessagePassingServiceInstance:
         result.first->second.push_back(std::move(newHandler));
     }
 
-    // Check if we need to notify about status change (transition from 0 to 1 local handlers)
-    // We only notify if there were no remote handlers either
-    if (was_empty)
-    {
-        std::shared_lock<std::shared_mutex> nodes_read_lock(event_update_interested_nodes_mutex_);
-        auto nodes_search = event_update_interested_nodes_.find(event_id);
-        const bool has_remote_handlers =
-            (nodes_search != event_update_interested_nodes_.end()) && (!nodes_search->second.empty());
-        nodes_read_lock.unlock();
-        // Only notify if no remote handlers exist, because only then we have a state change from 0 -> >0.
-        notify_status_change = !has_remote_handlers;
-    }
-
     write_lock.unlock();
 
     if (target_node_id != self_pid_)
@@ -1090,12 +1044,7 @@ IMessagePassingService::HandlerRegistrationNoType MessagePassingServiceInstance:
     // This allows SkeletonEvent to start sending NotifyEvent() calls for this event.
     if (notify_status_change)
     {
-        std::shared_lock<std::shared_mutex> callback_read_lock(handler_status_change_callbacks_mutex_);
-        auto callback_search = handler_status_change_callbacks_.find(event_id);
-        if (callback_search != handler_status_change_callbacks_.end())
-        {
-            callback_search->second(true);  // Now has handlers
-        }
+        NotifyHandlerStatusChange(event_id);
     }
 
     return registration_no;
@@ -1185,17 +1134,8 @@ void MessagePassingServiceInstance::UnregisterEventNotification(
             score::cpp::ignore = search->second.erase(result);
             found = true;
 
-            // If this was the last local handler, check if remote nodes interested in update notification exist
-            if (search->second.empty())
-            {
-                std::shared_lock<std::shared_mutex> nodes_read_lock(event_update_interested_nodes_mutex_);
-                auto nodes_search = event_update_interested_nodes_.find(event_id);
-                const bool has_remote_handlers =
-                    (nodes_search != event_update_interested_nodes_.end()) && (!nodes_search->second.empty());
-                nodes_read_lock.unlock();
-                // Only notify if no remote handlers exist, because only then we have a state change from >0 -> 0.
-                notify_status_change = !has_remote_handlers;
-            }
+            // If this was the last local handler, we might have a status change.
+            notify_status_change = search->second.empty();
         }
     }
     write_lock.unlock();
@@ -1219,12 +1159,7 @@ void MessagePassingServiceInstance::UnregisterEventNotification(
     // This allows SkeletonEvent to skip NotifyEvent() calls for this event to save performance.
     if (notify_status_change)
     {
-        std::shared_lock<std::shared_mutex> callback_read_lock(handler_status_change_callbacks_mutex_);
-        auto callback_search = handler_status_change_callbacks_.find(event_id);
-        if (callback_search != handler_status_change_callbacks_.end())
-        {
-            callback_search->second(false);  // No handlers remain
-        }
+        NotifyHandlerStatusChange(event_id);
     }
 }
 
@@ -1486,39 +1421,44 @@ void MessagePassingServiceInstance::RegisterEventNotificationExistenceChangedCal
     IMessagePassingService::HandlerStatusChangeCallback callback) noexcept
 {
     std::unique_lock<std::shared_mutex> write_lock(handler_status_change_callbacks_mutex_);
-    handler_status_change_callbacks_[event_id] = std::move(callback);
+    handler_status_change_callbacks_[event_id] = HandlerStatusChangeNotification{std::move(callback), false};
     write_lock.unlock();
 
-    // Check current handler status and invoke callback if handlers already exist
+    // Invoke the callback immediately only if handlers are already registered.
+    // This avoids unnecessary callback invocation when the atomic flags are already initialized to false.
+    NotifyHandlerStatusChange(event_id);
+}
+
+bool MessagePassingServiceInstance::HasLocalHandlers(const ElementFqId event_id) noexcept
+{
     std::shared_lock<std::shared_mutex> handlers_read_lock(event_update_handlers_mutex_);
-    auto handlers_search = event_update_handlers_.find(event_id);
-    const bool has_local_handlers =
-        (handlers_search != event_update_handlers_.end()) && (!handlers_search->second.empty());
-    handlers_read_lock.unlock();
+    const auto handlers_search = event_update_handlers_.find(event_id);
+    return (handlers_search != event_update_handlers_.end()) && (!handlers_search->second.empty());
+}
 
+bool MessagePassingServiceInstance::HasRemoteHandlers(const ElementFqId event_id) noexcept
+{
     std::shared_lock<std::shared_mutex> nodes_read_lock(event_update_interested_nodes_mutex_);
-    auto nodes_search = event_update_interested_nodes_.find(event_id);
-    const bool has_remote_handlers =
-        (nodes_search != event_update_interested_nodes_.end()) && (!nodes_search->second.empty());
-    nodes_read_lock.unlock();
-
-    const bool has_any_handlers = has_local_handlers || has_remote_handlers;
+    const auto nodes_search = event_update_interested_nodes_.find(event_id);
+    return (nodes_search != event_update_interested_nodes_.end()) && (!nodes_search->second.empty());
+}
 
-    // Invoke the callback immediately only if handlers are already registered.
-    // This avoids unnecessary callback invocation when the atomic flags are already initialized to false.
-    if (has_any_handlers)
+void MessagePassingServiceInstance::NotifyHandlerStatusChange(const ElementFqId event_id) noexcept
+{
+    // Local and remote handlers can change concurrently. To end up with the current status, whatever the order of the
+    // notifications is, it is determined here, where no other notification can take place.
+    std::unique_lock<std::shared_mutex> callback_write_lock(handler_status_change_callbacks_mutex_);
+    auto callback_search = handler_status_change_callbacks_.find(event_id);
+    if (callback_search == handler_status_change_callbacks_.end())
     {
-        std::shared_lock<std::shared_mutex> callback_read_lock(handler_status_change_callbacks_mutex_);
-        auto callback_search = handler_status_change_callbacks_.find(event_id);
+        return;
+    }
 
-        // LCOV_EXCL_BR_START: Defensive programming: false branch is unreachable in practice. The code inserts a
-        // callback into the map, then immediately looks it up. Between these two operations (both protected by
-        // mutexes), there's no way for the callback to be removed.
-        if (callback_search != handler_status_change_callbacks_.end())
-        // LCOV_EXCL_BR_STOP
-        {
-            callback_search->second(true);
-        }
+    const bool has_any_handlers = HasLocalHandlers(event_id) || HasRemoteHandlers(event_id);
+    if (has_any_handlers != callback_search->second.last_status)
+    {
+        callback_search->second.last_status = has_any_handlers;
+        callback_search->second.callback(has_any_handlers);
     }
 }
 
diff --git a/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.h b/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.h
index f2e1247..e329afd 100644
--- a/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.h
+++ b/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.h
@@ -221,6 +221,11 @@ class MessagePassingServiceInstance : public IMessagePassingServiceInstance
                                            const pid_t target_node_id) noexcept;
     void SendRegisterEventNotificationMessage(const ElementFqId event_id, const pid_t target_node_id) noexcept;
 
+    bool HasLocalHandlers(const ElementFqId event_id) noexcept;
+    bool HasRemoteHandlers(const ElementFqId event_id) noexcept;
+    /// \brief Tells the current existence of local/remote handlers for the given event to the registered callback.
+    void NotifyHandlerStatusChange(const ElementFqId event_id) noexcept;
+
     score::Result<void> CallSubscribeServiceMethodLocally(
         const SkeletonInstanceIdentifier& skeleton_instance_identifier,
         const ProxyInstanceIdentifier& proxy_instance_identifier,
@@ -338,8 +343,13 @@ class MessagePassingServiceInstance : public IMessagePassingServiceInstance
     /// \details This allows SkeletonEvent instances to be notified when they transition from having
     ///          no handlers to having at least one handler (or vice versa), avoiding unnecessary lock
     ///          overhead in the main path when no handlers are registered.
-    std::unordered_map<ElementFqId, IMessagePassingService::HandlerStatusChangeCallback>
-        handler_status_change_callbacks_;
+    struct HandlerStatusChangeNotification
+    {
+        IMessagePassingService::HandlerStatusChangeCallback callback;
+        /// \brief status, which the callback was last called with
+        bool last_status;
+    };
+    std::unordered_map<ElementFqId, HandlerStatusChangeNotification> handler_status_change_callbacks_;
 
     std::shared_mutex handler_status_change_callbacks_mutex_;
 
-- 
2.43.0


From 7470b894c2c685e4913c615d0a7032309ff47150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:47 +0000
Subject: [PATCH 26/44] fix: evicting a client connection while its engine
 waits for the client cache deadlocked

GetMessagePassingClient destroyed the evicted connection with the cache mutex held. The destructor waits for the
engine thread, which may itself wait for the mutex (HandleOutdatedNodeIdMsg -> RemoveMessagePassingClient).
---
 .../bindings/lola/messaging/message_passing_client_cache.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/score/mw/com/impl/bindings/lola/messaging/message_passing_client_cache.cpp b/score/mw/com/impl/bindings/lola/messaging/message_passing_client_cache.cpp
index a855b73..20f2791 100644
--- a/score/mw/com/impl/bindings/lola/messaging/message_passing_client_cache.cpp
+++ b/score/mw/com/impl/bindings/lola/messaging/message_passing_client_cache.cpp
@@ -79,9 +79,12 @@ std::shared_ptr<score::message_passing::IClientConnection> MessagePassingClientC
 std::shared_ptr<score::message_passing::IClientConnection> MessagePassingClientCache::GetMessagePassingClient(
     const pid_t target_node_id) noexcept
 {
+    // Declared before the lock, so that an evicted client gets destroyed after the mutex has been released: its destructor
+    // waits for the thread which dispatches messages, and this thread may be waiting for the mutex.
+    std::shared_ptr<score::message_passing::IClientConnection> cached_client{};
     std::lock_guard<std::mutex> lck(mutex_);
 
-    const auto cached_client = UnlockedGetCachedMessagePassingClient(target_node_id);
+    cached_client = UnlockedGetCachedMessagePassingClient(target_node_id);
     if (cached_client != nullptr)
     {
         const auto state = cached_client->GetState();
-- 
2.43.0


From 5c61f11c26f3c8fd849d8ed1520487ca6bf7ecf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:47 +0000
Subject: [PATCH 27/44] fix: a process did not register its pid in re-created
 shared memory

A process that had already used a service instance skipped the registration in the application id to pid mapping after
the provider had removed and re-created the shared memory. When it died, its successor did not announce the outdated
pid, and the provider kept on sending notifications to the dead process.
---
 .../transaction_log_rollback_executor.cpp     | 18 +++++++++++-------
 .../lola/transaction_log_rollback_executor.h  | 19 ++++++-------------
 2 files changed, 17 insertions(+), 20 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/transaction_log_rollback_executor.cpp b/score/mw/com/impl/bindings/lola/transaction_log_rollback_executor.cpp
index 81c2c44..c9a6f26 100644
--- a/score/mw/com/impl/bindings/lola/transaction_log_rollback_executor.cpp
+++ b/score/mw/com/impl/bindings/lola/transaction_log_rollback_executor.cpp
@@ -67,7 +67,7 @@ TransactionLogRollbackExecutor::TransactionLogRollbackExecutor(
 // throwing std::bad_optional_access which leds to std::terminate(). This suppression should be removed after fixing
 // [Ticket-173043](broken_link_j/Ticket-173043)
 // coverity[autosar_cpp14_a15_5_3_violation : FALSE]
-void TransactionLogRollbackExecutor::PrepareRollback(lola::IRuntime& lola_runtime) noexcept
+bool TransactionLogRollbackExecutor::RegisterCurrentPid(lola::IRuntime& lola_runtime) noexcept
 {
     // Register the application's unique identifier (which is the transaction_log_id_ for this context) and
     // current pid in the shared mapping.
@@ -87,10 +87,9 @@ void TransactionLogRollbackExecutor::PrepareRollback(lola::IRuntime& lola_runtim
         // we found an old/outdated PID for our UID in the shared-memory of the service-instance. Notify provider, that
         // this pid is outdated.
         lola_runtime.GetLolaMessaging().NotifyOutdatedNodeId(asil_level_, previous_pid.value(), provider_pid_);
+        return true;
     }
-
-    // Mark all TransactionLogs for each event that correspond to transaction_log_id as needing to be rolled back.
-    MarkTransactionLogsNeedRollback(service_data_control_, transaction_log_id_);
+    return false;
 }
 
 // Suppress "AUTOSAR C++14 A15-5-3" rule findings. This rule states: "The std::terminate() function shall not be called
@@ -109,11 +108,16 @@ Result<void> TransactionLogRollbackExecutor::RollbackTransactionLogs() noexcept
     // If another Proxy instance has already prepared the rollback for the given service_data_control_ (the special case
     // where we have more than one proxy instance in the same process, which uses the same service instance ->
     // service_data_control_), then we must not prepare rollback a 2nd time! If the mutex was not created (but an
-    // existing one returned), this is the sign, that another proxy already did the PrepareRollback for the same
+    // existing one returned), this is the sign, that another proxy already prepared the rollback for the same
     // service_data_control_
-    if (!mutex_existed)
+    // The current pid has to be registered in any case: the provider may have re-created the service_data_control_ since
+    // the other proxy had been created. Repeating the registration with the same pid does no
+    // harm.
+    const bool previous_process_found = RegisterCurrentPid(lola_runtime);
+    if ((!mutex_existed) || previous_process_found)
     {
-        PrepareRollback(lola_runtime);
+        // Mark all TransactionLogs for each event that correspond to transaction_log_id as needing to be rolled back.
+        MarkTransactionLogsNeedRollback(service_data_control_, transaction_log_id_);
     }
 
     for (auto& element : service_data_control_.event_controls_)
diff --git a/score/mw/com/impl/bindings/lola/transaction_log_rollback_executor.h b/score/mw/com/impl/bindings/lola/transaction_log_rollback_executor.h
index 6a18582..94c185e 100644
--- a/score/mw/com/impl/bindings/lola/transaction_log_rollback_executor.h
+++ b/score/mw/com/impl/bindings/lola/transaction_log_rollback_executor.h
@@ -40,22 +40,15 @@ class TransactionLogRollbackExecutor
     ///        transaction_log_id specific to a proxy instance given in the ctor.
     /// \details Besides the pure transaction rollback, there is also some preparation needed/done once for a given
     ///          service_data_control (independent from the number of local proxy instances referring to it). This
-    ///          is done by an internal call to #PrepareRollback
+    ///          is done here, when the first proxy instance gets created
     Result<void> RollbackTransactionLogs() noexcept;
 
   private:
-    /// \brief Prepares the rollback of proxy service instance specific transaction logs.
-    /// \details This "preparation" must only be done ONCE in the context of a "proxy process", which accesses the
-    ///          related service-instance! The implementation cares for this and returns early, if preparation has
-    ///          already been done. I.e. in the pathological case, that a process has multiple proxy instances
-    ///          for the same service-instance, only the call to this func by the 1st proxy instance will do the
-    ///          preparation, further calls will return early.
-    ///          The func does mainly two things:
-    ///          1. It registers current process uid/pid pair within service_data_control and if it detects an old/
-    ///             previous registration for its uid, it notifies the provider side about an outdated pid.
-    ///          2. It marks any transaction-log within service_data_control with its transaction_log_id as
-    ///             "to-be-rolled-back".
-    void PrepareRollback(lola::IRuntime& lola_runtime) noexcept;
+    /// \brief Registers the application with the current pid within service_data_control.
+    /// \details If it detects an old/previous registration with another pid, it notifies the provider side about an
+    ///          outdated pid.
+    /// \return true, if there was a registration with another pid.
+    bool RegisterCurrentPid(lola::IRuntime& lola_runtime) noexcept;
 
     ServiceDataControl& service_data_control_;
     /// asil level of the service_data_control_
-- 
2.43.0


From 042cd92c1faf544cadcf741f7fc05c26ae1c56a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:14 +0000
Subject: [PATCH 28/44] fix: UnregisterEventNotificationRemote read a
 registration after releasing its lock

The error message about a changed provider was built from a map element which another thread may have erased.
---
 .../lola/messaging/message_passing_service_instance.cpp      | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp b/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp
index e7117ae..5611033 100644
--- a/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp
+++ b/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp
@@ -1333,14 +1333,15 @@ void MessagePassingServiceInstance::UnregisterEventNotificationRemote(
         SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(
             registration_count->second.counter > 0U,
             "MessagePassingService: UnregisterEventNotification trying to decrement counter, which is already 0!");
-        if (registration_count->second.node_id != target_node_id)
+        const auto current_node_id = registration_count->second.node_id;
+        if (current_node_id != target_node_id)
         {
             remote_reg_write_lock.unlock();
             score::mw::log::LogError("lola")
                 << "MessagePassingService: UnregisterEventNotification called with register_no " << registration_no
                 << " for a remote event " << event_id.ToString() << " for target_node_id" << target_node_id
                 << ", which is not the node_id, by which this event is currently provided:"
-                << registration_count->second.node_id;
+                << current_node_id;
             return;
         }
 
-- 
2.43.0


From 32cf59de8b3e48729070abc1cc7326d86c435e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:04 +0000
Subject: [PATCH 29/44] fix: a re-offer by the same process counted event
 registrations twice

---
 score/mw/com/impl/bindings/lola/subscription_helpers.cpp | 6 +++++-
 score/mw/com/impl/bindings/lola/subscription_helpers.h   | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/subscription_helpers.cpp b/score/mw/com/impl/bindings/lola/subscription_helpers.cpp
index c7da06f..cc25d7d 100644
--- a/score/mw/com/impl/bindings/lola/subscription_helpers.cpp
+++ b/score/mw/com/impl/bindings/lola/subscription_helpers.cpp
@@ -31,6 +31,7 @@ void EventReceiveHandlerManager::Register(std::weak_ptr<ScopedEventReceiveHandle
     auto& lola_runtime = GetBindingRuntime<lola::IRuntime>(BindingType::kLoLa);
     registration_number_ = lola_runtime.GetLolaMessaging().RegisterEventNotification(
         asil_level_, element_fq_id_, std::move(handler), event_source_pid_);
+    registered_event_source_pid_ = event_source_pid_;
 }
 
 void EventReceiveHandlerManager::Reregister(
@@ -40,10 +41,13 @@ void EventReceiveHandlerManager::Reregister(
     {
         Register(std::move(new_event_receiver_handler.value()));
     }
-    else if (registration_number_.has_value())
+    // If the service is offered again by the same process, the existing registration is still valid. Re-registering would
+    // count it a second time, so that it would never be revoked.
+    else if (registration_number_.has_value() && (registered_event_source_pid_ != event_source_pid_))
     {
         auto& lola_runtime = GetBindingRuntime<lola::IRuntime>(BindingType::kLoLa);
         lola_runtime.GetLolaMessaging().ReregisterEventNotification(asil_level_, element_fq_id_, event_source_pid_);
+        registered_event_source_pid_ = event_source_pid_;
     }
 }
 
diff --git a/score/mw/com/impl/bindings/lola/subscription_helpers.h b/score/mw/com/impl/bindings/lola/subscription_helpers.h
index cec18b2..0200747 100644
--- a/score/mw/com/impl/bindings/lola/subscription_helpers.h
+++ b/score/mw/com/impl/bindings/lola/subscription_helpers.h
@@ -44,7 +44,8 @@ class EventReceiveHandlerManager
         : asil_level_{asil_level},
           element_fq_id_{element_fq_id},
           event_source_pid_{event_source_pid},
-          registration_number_{}
+          registration_number_{},
+          registered_event_source_pid_{event_source_pid}
     {
     }
 
@@ -62,6 +63,8 @@ class EventReceiveHandlerManager
     const ElementFqId element_fq_id_;
     pid_t event_source_pid_;
     std::optional<IMessagePassingService::HandlerRegistrationNoType> registration_number_;
+    // pid of the event source, with which the current registration (registration_number_) is registered
+    pid_t registered_event_source_pid_;
 };
 
 class SubscriptionData
-- 
2.43.0


From a69c147f23b52b61fc7859a58caf99267b9907d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:42 +0000
Subject: [PATCH 30/44] fix: replacing a receive handler at a re-offer revoked
 the registration of another proxy

---
 score/mw/com/impl/bindings/lola/subscription_helpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/score/mw/com/impl/bindings/lola/subscription_helpers.cpp b/score/mw/com/impl/bindings/lola/subscription_helpers.cpp
index cc25d7d..0a5aaf1 100644
--- a/score/mw/com/impl/bindings/lola/subscription_helpers.cpp
+++ b/score/mw/com/impl/bindings/lola/subscription_helpers.cpp
@@ -57,7 +57,7 @@ void EventReceiveHandlerManager::Unregister()
     {
         auto& lola_runtime = GetBindingRuntime<lola::IRuntime>(BindingType::kLoLa);
         lola_runtime.GetLolaMessaging().UnregisterEventNotification(
-            asil_level_, element_fq_id_, registration_number_.value(), event_source_pid_);
+            asil_level_, element_fq_id_, registration_number_.value(), registered_event_source_pid_);
         registration_number_ = std::nullopt;
     }
 }
-- 
2.43.0


From f808c87237f986b962be285db78959016b8ebbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:06 +0000
Subject: [PATCH 31/44] fix: destroying an evicted client connection blocked
 its engine's waiter for ever

---
 .../message_passing_client_cache.cpp          | 19 ++++++++++++++-----
 .../messaging/message_passing_client_cache.h  |  3 +++
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/messaging/message_passing_client_cache.cpp b/score/mw/com/impl/bindings/lola/messaging/message_passing_client_cache.cpp
index 20f2791..3a62b06 100644
--- a/score/mw/com/impl/bindings/lola/messaging/message_passing_client_cache.cpp
+++ b/score/mw/com/impl/bindings/lola/messaging/message_passing_client_cache.cpp
@@ -53,7 +53,7 @@ constexpr std::chrono::milliseconds kConnectTimeout{kStateTryAttempts * kStateRe
 
 MessagePassingClientCache::MessagePassingClientCache(const ClientQualityType asil_level,
                                                      score::message_passing::IClientFactory& client_factory) noexcept
-    : asil_level_{asil_level}, client_factory_{client_factory}, clients_{}, mutex_{}
+    : asil_level_{asil_level}, client_factory_{client_factory}, clients_{}, evicted_clients_{}, mutex_{}
 {
 }
 
@@ -79,12 +79,18 @@ std::shared_ptr<score::message_passing::IClientConnection> MessagePassingClientC
 std::shared_ptr<score::message_passing::IClientConnection> MessagePassingClientCache::GetMessagePassingClient(
     const pid_t target_node_id) noexcept
 {
-    // Declared before the lock, so that an evicted client gets destroyed after the mutex has been released: its destructor
-    // waits for the thread which dispatches messages, and this thread may be waiting for the mutex.
-    std::shared_ptr<score::message_passing::IClientConnection> cached_client{};
     std::lock_guard<std::mutex> lck(mutex_);
 
-    cached_client = UnlockedGetCachedMessagePassingClient(target_node_id);
+    score::cpp::ignore =
+        evicted_clients_.erase(std::remove_if(evicted_clients_.begin(),
+                                              evicted_clients_.end(),
+                                              [](const auto& client) noexcept {
+                                                  return client->GetState() ==
+                                                         score::message_passing::IClientConnection::State::kStopped;
+                                              }),
+                               evicted_clients_.end());
+
+    auto cached_client = UnlockedGetCachedMessagePassingClient(target_node_id);
     if (cached_client != nullptr)
     {
         const auto state = cached_client->GetState();
@@ -104,6 +110,9 @@ std::shared_ptr<score::message_passing::IClientConnection> MessagePassingClientC
                                         << ")";
         cached_client->Stop();
         score::cpp::ignore = clients_.erase(target_node_id);
+        // The destructor of a client waits until the thread which dispatches messages has stopped the connection. This
+        // thread may be waiting for our mutex or for a mutex of our caller. So the client is kept until it is stopped.
+        evicted_clients_.push_back(std::move(cached_client));
         // Fall through to create a new client below
     }
 
diff --git a/score/mw/com/impl/bindings/lola/messaging/message_passing_client_cache.h b/score/mw/com/impl/bindings/lola/messaging/message_passing_client_cache.h
index 7a8d6ab..4044b91 100644
--- a/score/mw/com/impl/bindings/lola/messaging/message_passing_client_cache.h
+++ b/score/mw/com/impl/bindings/lola/messaging/message_passing_client_cache.h
@@ -20,6 +20,7 @@
 #include <mutex>
 #include <string>
 #include <unordered_map>
+#include <vector>
 
 namespace score::mw::com::impl::lola
 {
@@ -54,6 +55,8 @@ class MessagePassingClientCache
     score::message_passing::IClientFactory& client_factory_;
     // TODO: PMR
     std::unordered_map<pid_t, std::shared_ptr<score::message_passing::IClientConnection>> clients_;
+    // clients, which have been evicted from clients_ but whose connection might not be stopped yet
+    std::vector<std::shared_ptr<score::message_passing::IClientConnection>> evicted_clients_;
     std::mutex mutex_;
 };
 
-- 
2.43.0


From b86a8c8d9319b3c6656f10c916273258ea53796c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:59 +0000
Subject: [PATCH 32/44] fix: unregister method call handlers only after running
 method subscriptions have finished

A subscription that was still running when the service was withdrawn registered its handler afterwards;
the next offer terminated the provider because of the handler left behind.
---
 score/mw/com/impl/bindings/lola/skeleton.cpp | 23 +++++++++++---------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/skeleton.cpp b/score/mw/com/impl/bindings/lola/skeleton.cpp
index 4c3457e..6047d3a 100644
--- a/score/mw/com/impl/bindings/lola/skeleton.cpp
+++ b/score/mw/com/impl/bindings/lola/skeleton.cpp
@@ -446,26 +446,29 @@ auto Skeleton::PrepareStopOffer(std::optional<UnregisterShmObjectTraceCallback>
             tracing::TracingRuntime::kDummyElementTypeForShmRegisterCallback);
     }
 
-    // Unregister any MethodCallHandlers that were registered by the SkeletonMethods and destroy registration guards
-    // which will destroy any registered ServiceMethodSubscribedHandlers. Expiring the scopes below will try to
-    // acquire a write lock on a mutex, while any calls to handlers will try to acquire a read lock. Therefore, if
-    // handlers can still be called while calling Expire(), then it's possible that the Expire() call will be
-    // blocked for a longer period of time (in case we get new handler calls) depending on thread/mutex scheduling.
-    // Therefore, we first unregister all handlers and then expire the scopes.
+    // Destroy the registration guards which will destroy any registered ServiceMethodSubscribedHandlers and unregister
+    // any MethodCallHandlers that were registered by the SkeletonMethods. Expiring the scopes below will try to acquire
+    // a write lock on a mutex, while any calls to handlers will try to acquire a read lock. Therefore, if handlers can
+    // still be called while calling Expire(), then it's possible that the Expire() call will be blocked for a longer
+    // period of time (in case we get new handler calls) depending on thread/mutex scheduling. Therefore, we first
+    // unregister the respective handlers and then expire their scope.
     method_subscription_registration_guard_qm_.reset();
     method_subscription_registration_guard_asil_b_.reset();
     method_unsubscription_registration_guard_qm_.reset();
     method_unsubscription_registration_guard_asil_b_.reset();
-    for (auto& skeleton_method : skeleton_methods_)
-    {
-        skeleton_method.second.get().UnregisterMethodCallHandlers();
-    }
 
     // Clean up method resources
     // Expiring the method subscribed handler scope will wait until any current subscription calls are finished and
     // will block any new subscription calls once it returns.
     on_service_method_subscribed_handler_scope_.Expire();
 
+    // A subscription call registers MethodCallHandlers. So they can only be unregistered once no subscription call is
+    // running anymore. Otherwise, a subscription call, which was still running, could leave a handler registered behind.
+    for (auto& skeleton_method : skeleton_methods_)
+    {
+        skeleton_method.second.get().UnregisterMethodCallHandlers();
+    }
+
     // Expiring the method call handler scope will wait until all current method calls are finished and will block
     // any new handlers from being called once it returns.
     method_call_handler_scope_.Expire();
-- 
2.43.0


From fb0ed0f70650ad86fa0e4462e0016550c0f0e65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:59 +0000
Subject: [PATCH 33/44] fix: reject method subscriptions while not all method
 handlers are registered

A proxy that reacts late to an earlier offer could subscribe while the provider was still offering;
this terminated the provider.
---
 score/mw/com/impl/bindings/lola/skeleton.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/score/mw/com/impl/bindings/lola/skeleton.cpp b/score/mw/com/impl/bindings/lola/skeleton.cpp
index 6047d3a..585f8d6 100644
--- a/score/mw/com/impl/bindings/lola/skeleton.cpp
+++ b/score/mw/com/impl/bindings/lola/skeleton.cpp
@@ -16,6 +16,7 @@
 #include "score/mw/com/impl/bindings/lola/element_fq_id.h"
 #include "score/mw/com/impl/bindings/lola/i_shm_path_builder.h"
 #include "score/mw/com/impl/bindings/lola/messaging/i_message_passing_service.h"
+#include "score/mw/com/impl/bindings/lola/methods/method_error.h"
 #include "score/mw/com/impl/bindings/lola/methods/proxy_method_instance_identifier.h"
 #include "score/mw/com/impl/bindings/lola/methods/type_erased_call_queue.h"
 #include "score/mw/com/impl/bindings/lola/proxy_instance_identifier.h"
@@ -674,6 +675,16 @@ Result<void> Skeleton::OnServiceMethodsSubscribed(const ProxyInstanceIdentifier&
     // synchronised. So, for the moment, we leave all actions within the mutex and will optimise in future if we
     // identify that this is a performance bottleneck.
     std::lock_guard lock{on_service_methods_subscribed_mutex_};
+
+    // A proxy which reacts late to a previous offer can subscribe while the service is still being offered (i.e. before
+    // it has been checked that the handlers of all methods have been registered). It will subscribe again, when it gets
+    // notified about the current offer.
+    if (!VerifyAllMethodHandlersRegistered())
+    {
+        score::mw::log::LogWarn("lola") << "Rejecting method subscription since not all methods have been registered";
+        return MakeUnexpected(MethodErrc::kNotOffered);
+    }
+
     if (method_resources_.Contains(proxy_instance_identifier, proxy_pid))
     {
         score::mw::log::LogDebug("lola") << "Method" << proxy_instance_identifier.application_id << "/"
-- 
2.43.0


From 87c2233702b81a94eb971676882467149cb32e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:08 +0000
Subject: [PATCH 34/44] fix: field get and set calls during a withdrawal or
 offer no longer access the withdrawn event

---
 score/mw/com/impl/skeleton_field.h      | 36 ++++++++++++++++++++++---
 score/mw/com/impl/skeleton_field_base.h | 16 ++++++++++-
 2 files changed, 47 insertions(+), 5 deletions(-)

diff --git a/score/mw/com/impl/skeleton_field.h b/score/mw/com/impl/skeleton_field.h
index 2bfe0f8..e9b3134 100644
--- a/score/mw/com/impl/skeleton_field.h
+++ b/score/mw/com/impl/skeleton_field.h
@@ -29,6 +29,7 @@
 
 #include <score/assert.hpp>
 
+#include <atomic>
 #include <functional>
 #include <memory>
 #include <mutex>
@@ -170,18 +171,26 @@ class SkeletonFieldImpl : public SkeletonFieldBase
         // we have to allocate them on the heap and store a pointer to them.
         auto state = std::make_unique<std::tuple<std::reference_wrapper<SkeletonEvent<SampleDataType>>,
                                                  std::reference_wrapper<std::mutex>,
-                                                 CallableType>>(
-            GetTypedEvent(), *set_handler_mutex_, std::forward<CallableType>(user_set_handler));
+                                                 std::reference_wrapper<const std::atomic<bool>>,
+                                                 CallableType>>(GetTypedEvent(),
+                                                                *set_handler_mutex_,
+                                                                *get_and_set_allowed_,
+                                                                std::forward<CallableType>(user_set_handler));
 
         auto set_handler = [state = std::move(state)](score::Result<FieldType>& final_value,
                                                       const FieldType& desired_value) {
-            auto& [skeleton_event, set_handler_mutex, actual_user_set_handler] = *state;
+            auto& [skeleton_event, set_handler_mutex, get_and_set_allowed, actual_user_set_handler] = *state;
 
             // Lock the mutex to ensure that only one set_handler is executing at a time for this field. We
             // don't want multiple consumers to be able to acquire multiple slots for writing a new field value
             // at the same time as this would require allocating additional slots and we don't currently foresee
             // a reasonable use case for that.
             std::lock_guard set_handler_lock{set_handler_mutex.get()};
+            if (!get_and_set_allowed.get().load())
+            {
+                final_value = score::Unexpected(MakeError(ComErrc::kNotOffered));
+                return;
+            }
 
             // Copy desired_value (which is a method InArg) into final_value (which is the method return value).
             // final_value can then be modified in place by set_handler.
@@ -299,6 +308,13 @@ class SkeletonFieldImpl : public SkeletonFieldBase
     /// practical issue with delaying the registration until PrepareOffer() is called.
     [[nodiscard]] Result<void> RegisterGetHandler() override;
 
+    void SetGetAndSetAllowed(const bool allowed) noexcept override
+    {
+        // Taking both locks ensures that no handler which has seen the previous value is still running.
+        const std::scoped_lock lock{*set_handler_mutex_, *get_handler_mutex_};
+        get_and_set_allowed_->store(allowed);
+    }
+
     /// \brief Single private delegating constructor. Both the production and test ctors funnel through here with
     ///        appropriate dispatches (real ones from the Make*IfEnabled helpers, or nullptr).
     SkeletonFieldImpl(SkeletonBase& parent,
@@ -333,6 +349,11 @@ class SkeletonFieldImpl : public SkeletonFieldBase
     /// moveable).
     std::unique_ptr<std::mutex> get_handler_mutex_{};
 
+    /// \brief Whether the get / set handlers may access the event, i.e. whether the field is offered.
+    ///
+    /// Modified only while both mutexes above are locked. Allocated on the heap for the same reason as these.
+    std::unique_ptr<std::atomic<bool>> get_and_set_allowed_{};
+
     std::unique_ptr<SkeletonMethod<SetMethodSignature<FieldType>>> set_method_;
     std::unique_ptr<SkeletonMethod<GetMethodSignature<FieldType>>> get_method_;
 };
@@ -350,6 +371,7 @@ SkeletonFieldImpl<SampleDataType, Tags...>::SkeletonFieldImpl(
       is_set_handler_registered_{false},
       set_handler_mutex_{std::make_unique<std::mutex>()},
       get_handler_mutex_{std::make_unique<std::mutex>()},
+      get_and_set_allowed_{std::make_unique<std::atomic<bool>>(false)},
       set_method_{std::move(skeleton_set_method_dispatch)},
       get_method_{std::move(skeleton_get_method_dispatch)}
 {
@@ -468,11 +490,17 @@ Result<void> SkeletonFieldImpl<SampleDataType, Tags...>::RegisterGetHandler()
     // pass a reference to the event since the event is owned via unique_ptr so will never be moved (which would
     // invalidate the reference to the field). We pass in the get_handler_mutex_ directly for similar reasons.
     auto& typed_event = GetTypedEvent();
-    auto get_handler = [&typed_event, &get_handler_mutex = *get_handler_mutex_](
+    auto get_handler = [&typed_event, &get_handler_mutex = *get_handler_mutex_,
+                        &get_and_set_allowed = *get_and_set_allowed_](
                            QualityType quality_type, score::Result<FieldType>& return_value) {
         // In case of concurrent Get calls, we want to ensure that they are processed sequentially so that only one
         // slot is referenced at a time.
         std::lock_guard<std::mutex> lock{get_handler_mutex};
+        if (!get_and_set_allowed.load())
+        {
+            return_value = score::Unexpected(MakeError(ComErrc::kNotOffered));
+            return;
+        }
         const auto sample_ptr_result = SkeletonEventView<FieldType>{typed_event}.GetLatestSample(quality_type);
         if (!sample_ptr_result.has_value())
         {
diff --git a/score/mw/com/impl/skeleton_field_base.h b/score/mw/com/impl/skeleton_field_base.h
index 881a2d3..5c7ff8c 100644
--- a/score/mw/com/impl/skeleton_field_base.h
+++ b/score/mw/com/impl/skeleton_field_base.h
@@ -92,14 +92,22 @@ class SkeletonFieldBase : public EnableReferenceToMoveableFromThis<SkeletonField
             if (update_field_result.has_value())
             {
                 was_prepare_offer_called_ = true;
+                SetGetAndSetAllowed(true);
             }
             return update_field_result;
         }
-        return skeleton_event_dispatch_->PrepareOffer();
+        const auto prepare_offer_result = skeleton_event_dispatch_->PrepareOffer();
+        if (prepare_offer_result.has_value())
+        {
+            SetGetAndSetAllowed(true);
+        }
+        return prepare_offer_result;
     }
 
     void PrepareStopOffer() noexcept
     {
+        // The get / set handlers access the event, so they must not run any more when the event is withdrawn.
+        SetGetAndSetAllowed(false);
         skeleton_event_dispatch_->PrepareStopOffer();
     }
 
@@ -128,6 +136,12 @@ class SkeletonFieldBase : public EnableReferenceToMoveableFromThis<SkeletonField
 
     [[nodiscard]] virtual Result<void> RegisterGetHandler() = 0;
 
+    /// \brief Determines whether calls of the get / set handlers may access the event.
+    ///
+    /// The handlers are called in the context of message passing, and therefore concurrently to the (withdrawal of the)
+    /// offer. After this function was called with false, no handler accesses the event until it is called with true.
+    virtual void SetGetAndSetAllowed(const bool /*allowed*/) noexcept {}
+
     /// \brief Sets the initial value of the field.
     ///
     /// The existence of the value is a precondition of this function, so IsInitialValueSaved() should be checked before
-- 
2.43.0


From b6510bed3b5bc91e34e7418aba24fb1c6a3e7c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:07 +0000
Subject: [PATCH 35/44] fix: trace a sent sample only if its event is prepared
 for tracing

If tracing is disabled while a service is offered (e.g. because the rollback of its tracing transactions failed), the
transaction log of the event is not registered, but the trace callback still referenced the sample through it and the
provider crashed with its next sample.
---
 score/mw/com/impl/bindings/lola/skeleton_event.h        | 4 +++-
 score/mw/com/impl/bindings/lola/skeleton_event_common.h | 6 ++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/score/mw/com/impl/bindings/lola/skeleton_event.h b/score/mw/com/impl/bindings/lola/skeleton_event.h
index 2c5f969..59de574 100644
--- a/score/mw/com/impl/bindings/lola/skeleton_event.h
+++ b/score/mw/com/impl/bindings/lola/skeleton_event.h
@@ -158,7 +158,9 @@ Result<void> SkeletonEvent<SampleType>::Send(
         return MakeUnexpected<void>(send_result.error());
     }
 
-    if (send_trace_callback.has_value())
+    // A traced sample is referenced via the skeleton's transaction log. If tracing was disabled before the event was
+    // offered, that log is not registered and the sample must not be traced.
+    if (send_trace_callback.has_value() && skeleton_event_common_.IsPreparedForTracing())
     {
         (*send_trace_callback)(sample);
     }
diff --git a/score/mw/com/impl/bindings/lola/skeleton_event_common.h b/score/mw/com/impl/bindings/lola/skeleton_event_common.h
index a13b701..7b73029 100644
--- a/score/mw/com/impl/bindings/lola/skeleton_event_common.h
+++ b/score/mw/com/impl/bindings/lola/skeleton_event_common.h
@@ -150,6 +150,12 @@ class SkeletonEventCommon
         return {};
     }
 
+    /// \brief Returns whether PrepareOfferCommon() has set up everything that is needed to trace sent samples.
+    bool IsPreparedForTracing() const noexcept
+    {
+        return type_erased_sample_ptrs_guard_.has_value();
+    }
+
     /// \brief Unset the callback for Receive Handler registration change notifications
     /// \attention The callback must not be unset until after StopOffer() has been called to avoid any
     /// race conditions between unsetting the callback and it being called.
-- 
2.43.0


From f75a1845297c4d64e818a01986c9c1e81222b61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:07 +0000
Subject: [PATCH 36/44] fix: occupy a tracing slot under the lock it is found
 with

Two threads that trace samples of one service element (update of a field and its set handler) could find the same slot
and the second one terminated the provider.
---
 .../bindings/lola/tracing/tracing_runtime.cpp | 38 +++++++------------
 .../bindings/lola/tracing/tracing_runtime.h   |  2 -
 2 files changed, 13 insertions(+), 27 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/tracing/tracing_runtime.cpp b/score/mw/com/impl/bindings/lola/tracing/tracing_runtime.cpp
index 84404c4..f0a024c 100644
--- a/score/mw/com/impl/bindings/lola/tracing/tracing_runtime.cpp
+++ b/score/mw/com/impl/bindings/lola/tracing/tracing_runtime.cpp
@@ -380,23 +380,6 @@ auto TracingRuntime::GetTraceContextIdRangeForServiceElement(
     return {range_start, static_cast<TraceContextId>(range_start) + static_cast<TraceContextId>(range_size)};
 }
 
-auto TracingRuntime::GetTraceContextId(
-    const impl::tracing::ServiceElementTracingData& service_element_tracing_data) noexcept
-    -> std::optional<TraceContextId>
-{
-    const auto trace_context_id_range = GetTraceContextIdRangeForServiceElement(service_element_tracing_data);
-    for (auto trace_context_id = trace_context_id_range.start; trace_context_id != trace_context_id_range.end;
-         ++trace_context_id)
-    {
-        if (!IsTracingSlotUsed(trace_context_id))
-        {
-            return trace_context_id;
-        }
-    }
-
-    return {};
-}
-
 [[nodiscard]] std::optional<impl::tracing::IBindingTracingRuntime::TraceContextId>
 // Suppress "AUTOSAR C++14 A15-5-3" rule findings. This rule states: "The std::terminate() function shall not be called
 // implicitly". std::terminate() is implicitly called from '.value()' in case it doesn't have value but as we check
@@ -414,16 +397,21 @@ TracingRuntime::EmplaceTypeErasedSamplePtr(impl::tracing::TypeErasedSamplePtr ty
         std::terminate();
     }
 
-    const auto trace_context_id = GetTraceContextId(service_element_tracing_data);
-    if (!trace_context_id.has_value())
+    // Finding a free slot and occupying it has to be done under the same lock, since samples of one service element may
+    // be traced by several threads (e.g. a field that is updated while a set request is processed).
+    const auto trace_context_id_range = GetTraceContextIdRangeForServiceElement(service_element_tracing_data);
+    for (auto trace_context_id = trace_context_id_range.start; trace_context_id != trace_context_id_range.end;
+         ++trace_context_id)
     {
-        return {};
+        auto& element = type_erased_sample_ptrs_.at(static_cast<std::size_t>(trace_context_id));
+        std::lock_guard<std::mutex> lock(element.mutex);
+        if (!element.sample_ptr.has_value())
+        {
+            element.sample_ptr = std::move(type_erased_sample_ptr);
+            return trace_context_id;
+        }
     }
-    auto& element = type_erased_sample_ptrs_.at(static_cast<std::size_t>(trace_context_id.value()));
-    std::lock_guard<std::mutex> lock(element.mutex);
-    SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD(!element.sample_ptr.has_value());
-    element.sample_ptr = std::move(type_erased_sample_ptr);
-    return trace_context_id;
+    return {};
 }
 
 void TracingRuntime::ClearTypeErasedSamplePtr(const TraceContextId trace_context_id) noexcept
diff --git a/score/mw/com/impl/bindings/lola/tracing/tracing_runtime.h b/score/mw/com/impl/bindings/lola/tracing/tracing_runtime.h
index f201ce1..77bdb73 100644
--- a/score/mw/com/impl/bindings/lola/tracing/tracing_runtime.h
+++ b/score/mw/com/impl/bindings/lola/tracing/tracing_runtime.h
@@ -163,8 +163,6 @@ class TracingRuntime : public impl::tracing::IBindingTracingRuntime
     auto GetTraceContextIdRangeForServiceElement(
         const impl::tracing::ServiceElementTracingData& service_element_tracing_data) noexcept
         -> TraceContextIdContiguousRange;
-    auto GetTraceContextId(const impl::tracing::ServiceElementTracingData& service_element_tracing_data) noexcept
-        -> std::optional<TraceContextId>;
 
     const Configuration& configuration_;
     std::optional<analysis::tracing::TraceClientId> trace_client_id_;
-- 
2.43.0


From 72d19564c0857dd7b920fb2c6f43690658cb0041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:07 +0000
Subject: [PATCH 37/44] fix: serialise updating a field with its set handler

The event of a field is not thread-safe, but was used by Update()/Allocate() and, on the message passing thread, by the
set handler. Allocations could fail, which is taken for misbehaviour of QM consumers, who are then cut off.
---
 score/mw/com/impl/skeleton_field.h | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/score/mw/com/impl/skeleton_field.h b/score/mw/com/impl/skeleton_field.h
index e9b3134..0305cd5 100644
--- a/score/mw/com/impl/skeleton_field.h
+++ b/score/mw/com/impl/skeleton_field.h
@@ -170,16 +170,19 @@ class SkeletonFieldImpl : public SkeletonFieldBase
         // Since the reference to SkeletonEvent and the user callable don't fit in the state of the type-erased handler,
         // we have to allocate them on the heap and store a pointer to them.
         auto state = std::make_unique<std::tuple<std::reference_wrapper<SkeletonEvent<SampleDataType>>,
+                                                 std::reference_wrapper<std::mutex>,
                                                  std::reference_wrapper<std::mutex>,
                                                  std::reference_wrapper<const std::atomic<bool>>,
                                                  CallableType>>(GetTypedEvent(),
                                                                 *set_handler_mutex_,
+                                                                *event_mutex_,
                                                                 *get_and_set_allowed_,
                                                                 std::forward<CallableType>(user_set_handler));
 
         auto set_handler = [state = std::move(state)](score::Result<FieldType>& final_value,
                                                       const FieldType& desired_value) {
-            auto& [skeleton_event, set_handler_mutex, get_and_set_allowed, actual_user_set_handler] = *state;
+            auto& [skeleton_event, set_handler_mutex, event_mutex, get_and_set_allowed, actual_user_set_handler] =
+                *state;
 
             // Lock the mutex to ensure that only one set_handler is executing at a time for this field. We
             // don't want multiple consumers to be able to acquire multiple slots for writing a new field value
@@ -199,7 +202,9 @@ class SkeletonFieldImpl : public SkeletonFieldBase
             // Allow user to validate/modify the value in-place
             std::invoke(actual_user_set_handler, final_value.value());
 
-            // Copy the (possibly modified) value into the latest field value
+            // Copy the (possibly modified) value into the latest field value. The user may update the field at the same
+            // time.
+            std::lock_guard event_lock{event_mutex.get()};
             auto update_result = skeleton_event.get().Send(final_value.value());
             if (!update_result.has_value())
             {
@@ -339,6 +344,14 @@ class SkeletonFieldImpl : public SkeletonFieldBase
     /// moveable).
     std::unique_ptr<std::mutex> set_handler_mutex_{};
 
+    /// \brief Mutex to ensure that the event isn't allocated / sent by the user and by the set_handler at the same time.
+    ///
+    /// The operations of the event are not thread-safe, but the set_handler is called in the message passing thread.
+    ///
+    /// This mutex must be allocated on the heap since SkeletonField must be moveable (and a std::mutex is not
+    /// moveable).
+    std::unique_ptr<std::mutex> event_mutex_{};
+
     /// \brief Mutex to ensure that only one get_handler is executed at a time for this field.
     ///
     /// Each get handler will reference an event slot while it copies the latest sample into the method return value.
@@ -370,6 +383,7 @@ SkeletonFieldImpl<SampleDataType, Tags...>::SkeletonFieldImpl(
       skeleton_field_mock_{nullptr},
       is_set_handler_registered_{false},
       set_handler_mutex_{std::make_unique<std::mutex>()},
+      event_mutex_{std::make_unique<std::mutex>()},
       get_handler_mutex_{std::make_unique<std::mutex>()},
       get_and_set_allowed_{std::make_unique<std::atomic<bool>>(false)},
       set_method_{std::move(skeleton_set_method_dispatch)},
@@ -412,6 +426,7 @@ Result<void> SkeletonFieldImpl<SampleDataType, Tags...>::Update(SampleAllocateeP
         return skeleton_field_mock_->Update(std::move(sample));
     }
 
+    std::lock_guard<std::mutex> event_lock{*event_mutex_};
     return GetTypedEvent().Send(std::move(sample));
 }
 
@@ -436,6 +451,7 @@ Result<SampleAllocateePtr<SampleDataType>> SkeletonFieldImpl<SampleDataType, Tag
                "called as the shared memory is not setup until OfferService() is called.";
         return MakeUnexpected(ComErrc::kBindingFailure);
     }
+    std::lock_guard<std::mutex> event_lock{*event_mutex_};
     return GetTypedEvent().Allocate();
 }
 
@@ -463,6 +479,7 @@ Result<void> SkeletonFieldImpl<SampleDataType, Tags...>::DoDeferredUpdate() noex
 template <typename SampleDataType, typename... Tags>
 Result<void> SkeletonFieldImpl<SampleDataType, Tags...>::UpdateImpl(const FieldType& sample_value) noexcept
 {
+    std::lock_guard<std::mutex> event_lock{*event_mutex_};
     return GetTypedEvent().Send(sample_value);
 }
 
-- 
2.43.0


From 6e5be8de0bf8863a06ca169f3add8460a3b74ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:07 +0000
Subject: [PATCH 38/44] fix: protect the shared memory objects of the tracing
 runtime

Services are offered, withdrawn and traced by different threads, which accessed the maps without synchronisation.
---
 .../mw/com/impl/bindings/lola/tracing/tracing_runtime.cpp  | 7 +++++++
 score/mw/com/impl/bindings/lola/tracing/tracing_runtime.h  | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/score/mw/com/impl/bindings/lola/tracing/tracing_runtime.cpp b/score/mw/com/impl/bindings/lola/tracing/tracing_runtime.cpp
index f0a024c..ac445e3 100644
--- a/score/mw/com/impl/bindings/lola/tracing/tracing_runtime.cpp
+++ b/score/mw/com/impl/bindings/lola/tracing/tracing_runtime.cpp
@@ -190,6 +190,7 @@ void TracingRuntime::RegisterShmObject(
             kDummyElementNameForShmRegisterCallback,
         "Unexpected service_element_name in LoLa TracingRuntime::RegisterShmObject");
     const auto map_value = std::make_pair(shm_object_handle, shm_memory_start_address);
+    const std::lock_guard<std::mutex> lock{shm_objects_mutex_};
     const auto insert_result =
         shm_object_handle_map_.insert(std::make_pair(service_element_instance_identifier_view, map_value));
     if (!insert_result.second)
@@ -203,6 +204,7 @@ void TracingRuntime::RegisterShmObject(
 void TracingRuntime::UnregisterShmObject(
     const impl::tracing::ServiceElementInstanceIdentifierView& service_element_instance_identifier_view) noexcept
 {
+    const std::lock_guard<std::mutex> lock{shm_objects_mutex_};
     const auto erase_result = shm_object_handle_map_.erase(service_element_instance_identifier_view);
     if (erase_result == 0U)
     {
@@ -216,6 +218,7 @@ void TracingRuntime::CacheFileDescriptorForReregisteringShmObject(
     void* const shm_memory_start_address) noexcept
 {
     const auto map_value = std::make_pair(shm_file_descriptor, shm_memory_start_address);
+    const std::lock_guard<std::mutex> lock{shm_objects_mutex_};
     const auto insert_result = failed_shm_object_registration_cache_.insert(
         std::make_pair(service_element_instance_identifier_view, map_value));
     if (!insert_result.second)
@@ -230,6 +233,7 @@ std::optional<std::pair<memory::shared::ISharedMemoryResource::FileDescriptor, v
 TracingRuntime::GetCachedFileDescriptorForReregisteringShmObject(
     const impl::tracing::ServiceElementInstanceIdentifierView& service_element_instance_identifier_view) const noexcept
 {
+    const std::lock_guard<std::mutex> lock{shm_objects_mutex_};
     const auto find_result = failed_shm_object_registration_cache_.find(service_element_instance_identifier_view);
     if (find_result == failed_shm_object_registration_cache_.end())
     {
@@ -241,6 +245,7 @@ TracingRuntime::GetCachedFileDescriptorForReregisteringShmObject(
 void TracingRuntime::ClearCachedFileDescriptorForReregisteringShmObject(
     const impl::tracing::ServiceElementInstanceIdentifierView& service_element_instance_identifier_view) noexcept
 {
+    const std::lock_guard<std::mutex> lock{shm_objects_mutex_};
     const auto erase_result = failed_shm_object_registration_cache_.erase(service_element_instance_identifier_view);
     if (erase_result == 0U)
     {
@@ -331,6 +336,7 @@ std::optional<analysis::tracing::ShmObjectHandle> TracingRuntime::GetShmObjectHa
     impl::tracing::ServiceElementInstanceIdentifierView lolaBindingSpecificIdentifier =
         ConvertServiceElementInstanceIdentifierViewForLoLaShmIdentification(service_element_instance_identifier_view);
 
+    const std::lock_guard<std::mutex> lock{shm_objects_mutex_};
     const auto find_result = shm_object_handle_map_.find(lolaBindingSpecificIdentifier);
     if (find_result == shm_object_handle_map_.end())
     {
@@ -345,6 +351,7 @@ std::optional<void*> TracingRuntime::GetShmRegionStartAddress(
     impl::tracing::ServiceElementInstanceIdentifierView simplifiedIdentifier =
         ConvertServiceElementInstanceIdentifierViewForLoLaShmIdentification(service_element_instance_identifier_view);
 
+    const std::lock_guard<std::mutex> lock{shm_objects_mutex_};
     const auto find_result = shm_object_handle_map_.find(simplifiedIdentifier);
     if (find_result == shm_object_handle_map_.end())
     {
diff --git a/score/mw/com/impl/bindings/lola/tracing/tracing_runtime.h b/score/mw/com/impl/bindings/lola/tracing/tracing_runtime.h
index 77bdb73..a876ca8 100644
--- a/score/mw/com/impl/bindings/lola/tracing/tracing_runtime.h
+++ b/score/mw/com/impl/bindings/lola/tracing/tracing_runtime.h
@@ -179,6 +179,9 @@ class TracingRuntime : public impl::tracing::IBindingTracingRuntime
     /// service element that was registered via RegisterServiceElement, ends.
     SamplePointerIndex next_available_position_for_new_service_element_range_start_;
 
+    /// \brief Protects the two maps below. Services are offered, withdrawn and traced by different threads.
+    mutable std::mutex shm_objects_mutex_{};
+
     std::unordered_map<impl::tracing::ServiceElementInstanceIdentifierView,
                        std::pair<analysis::tracing::ShmObjectHandle, void*>>
         shm_object_handle_map_;
-- 
2.43.0


From cd7d16de3ea31fa400b5b44935cab6ed7f9626aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:07 +0000
Subject: [PATCH 39/44] fix: register a traced shared memory object again after
 a recoverable error

The cached file descriptor was looked up with the identifier of the service element instead of that of the shared memory
object, so that the promised second attempt never took place and the trace points were disabled.
---
 .../bindings/lola/tracing/tracing_runtime.cpp  | 18 ++++++++++++++++--
 .../bindings/lola/tracing/tracing_runtime.h    |  4 ++++
 .../impl/tracing/i_binding_tracing_runtime.h   | 12 ++++++++++++
 score/mw/com/impl/tracing/tracing_runtime.cpp  |  4 +++-
 score/mw/com/impl/tracing/tracing_runtime.h    |  6 ++++++
 5 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/tracing/tracing_runtime.cpp b/score/mw/com/impl/bindings/lola/tracing/tracing_runtime.cpp
index ac445e3..8c6e9ae 100644
--- a/score/mw/com/impl/bindings/lola/tracing/tracing_runtime.cpp
+++ b/score/mw/com/impl/bindings/lola/tracing/tracing_runtime.cpp
@@ -201,6 +201,18 @@ void TracingRuntime::RegisterShmObject(
     }
 }
 
+void TracingRuntime::ReregisterShmObject(
+    const impl::tracing::ServiceElementInstanceIdentifierView& service_element_instance_identifier_view,
+    const analysis::tracing::ShmObjectHandle shm_object_handle,
+    void* const shm_memory_start_address) noexcept
+{
+    RegisterShmObject(
+        ConvertServiceElementInstanceIdentifierViewForLoLaShmIdentification(service_element_instance_identifier_view),
+        shm_object_handle,
+        shm_memory_start_address);
+    ClearCachedFileDescriptorForReregisteringShmObject(service_element_instance_identifier_view);
+}
+
 void TracingRuntime::UnregisterShmObject(
     const impl::tracing::ServiceElementInstanceIdentifierView& service_element_instance_identifier_view) noexcept
 {
@@ -234,7 +246,8 @@ TracingRuntime::GetCachedFileDescriptorForReregisteringShmObject(
     const impl::tracing::ServiceElementInstanceIdentifierView& service_element_instance_identifier_view) const noexcept
 {
     const std::lock_guard<std::mutex> lock{shm_objects_mutex_};
-    const auto find_result = failed_shm_object_registration_cache_.find(service_element_instance_identifier_view);
+    const auto find_result = failed_shm_object_registration_cache_.find(
+        ConvertServiceElementInstanceIdentifierViewForLoLaShmIdentification(service_element_instance_identifier_view));
     if (find_result == failed_shm_object_registration_cache_.end())
     {
         return {};
@@ -246,7 +259,8 @@ void TracingRuntime::ClearCachedFileDescriptorForReregisteringShmObject(
     const impl::tracing::ServiceElementInstanceIdentifierView& service_element_instance_identifier_view) noexcept
 {
     const std::lock_guard<std::mutex> lock{shm_objects_mutex_};
-    const auto erase_result = failed_shm_object_registration_cache_.erase(service_element_instance_identifier_view);
+    const auto erase_result = failed_shm_object_registration_cache_.erase(
+        ConvertServiceElementInstanceIdentifierViewForLoLaShmIdentification(service_element_instance_identifier_view));
     if (erase_result == 0U)
     {
         score::mw::log::LogWarn("lola")
diff --git a/score/mw/com/impl/bindings/lola/tracing/tracing_runtime.h b/score/mw/com/impl/bindings/lola/tracing/tracing_runtime.h
index a876ca8..d248ba3 100644
--- a/score/mw/com/impl/bindings/lola/tracing/tracing_runtime.h
+++ b/score/mw/com/impl/bindings/lola/tracing/tracing_runtime.h
@@ -97,6 +97,10 @@ class TracingRuntime : public impl::tracing::IBindingTracingRuntime
         const analysis::tracing::ShmObjectHandle shm_object_handle,
         void* const shm_memory_start_address) noexcept override;
 
+    void ReregisterShmObject(
+        const impl::tracing::ServiceElementInstanceIdentifierView& service_element_instance_identifier_view,
+        const analysis::tracing::ShmObjectHandle shm_object_handle,
+        void* const shm_memory_start_address) noexcept override;
     void UnregisterShmObject(const impl::tracing::ServiceElementInstanceIdentifierView&
                                  service_element_instance_identifier_view) noexcept override;
 
diff --git a/score/mw/com/impl/tracing/i_binding_tracing_runtime.h b/score/mw/com/impl/tracing/i_binding_tracing_runtime.h
index 89e3dd4..0773d0d 100644
--- a/score/mw/com/impl/tracing/i_binding_tracing_runtime.h
+++ b/score/mw/com/impl/tracing/i_binding_tracing_runtime.h
@@ -81,6 +81,18 @@ class IBindingTracingRuntime
         const impl::tracing::ServiceElementInstanceIdentifierView& service_element_instance_identifier_view,
         const analysis::tracing::ShmObjectHandle shm_object_handle,
         void* const shm_memory_start_address) noexcept = 0;
+
+    /// \brief Same as RegisterShmObject(), but for a shm-object, whose registration is successful only now and whose file
+    ///        descriptor was cached via CacheFileDescriptorForReregisteringShmObject(). May be called with any
+    ///        service-element which is contained in the shm-object.
+    virtual void ReregisterShmObject(
+        const impl::tracing::ServiceElementInstanceIdentifierView& service_element_instance_identifier_view,
+        const analysis::tracing::ShmObjectHandle shm_object_handle,
+        void* const shm_memory_start_address) noexcept
+    {
+        RegisterShmObject(
+            service_element_instance_identifier_view, shm_object_handle, shm_memory_start_address);
+    }
     virtual void UnregisterShmObject(const impl::tracing::ServiceElementInstanceIdentifierView&
                                          service_element_instance_identifier_view) noexcept = 0;
 
diff --git a/score/mw/com/impl/tracing/tracing_runtime.cpp b/score/mw/com/impl/tracing/tracing_runtime.cpp
index ea3bb45..87adf77 100644
--- a/score/mw/com/impl/tracing/tracing_runtime.cpp
+++ b/score/mw/com/impl/tracing/tracing_runtime.cpp
@@ -453,6 +453,8 @@ Result<analysis::tracing::ShmObjectHandle> TracingRuntime::GetRegisteredShmObjec
     IBindingTracingRuntime& binding_runtime,
     const ServiceElementInstanceIdentifierView service_element_instance_identifier)
 {
+    // Several service elements may share the shm-object, but only one of them may re-register it.
+    const std::lock_guard<std::mutex> lock{*shm_object_reregistration_mutex_};
     auto shm_object_handle = binding_runtime.GetShmObjectHandle(service_element_instance_identifier);
     if (shm_object_handle.has_value())
     {
@@ -495,7 +497,7 @@ Result<analysis::tracing::ShmObjectHandle> TracingRuntime::GetRegisteredShmObjec
     }
     shm_object_handle = register_shm_result.value();
     // we re-registered successfully at GenericTraceAPI -> now also register to the binding specific runtime.
-    binding_runtime.RegisterShmObject(
+    binding_runtime.ReregisterShmObject(
         service_element_instance_identifier, shm_object_handle.value(), shm_memory_start_address);
 
     return std::move(shm_object_handle.value());
diff --git a/score/mw/com/impl/tracing/tracing_runtime.h b/score/mw/com/impl/tracing/tracing_runtime.h
index 0048bb1..b8de677 100644
--- a/score/mw/com/impl/tracing/tracing_runtime.h
+++ b/score/mw/com/impl/tracing/tracing_runtime.h
@@ -24,6 +24,8 @@
 #include <atomic>
 #include <cstddef>
 #include <cstdint>
+#include <memory>
+#include <mutex>
 #include <unordered_map>
 #include <variant>
 
@@ -176,6 +178,10 @@ class TracingRuntime : public ITracingRuntime
 
     std::unordered_map<BindingType, IBindingTracingRuntime*> binding_tracing_runtimes_;
 
+    /// \brief Makes sure that a shm-object, which is shared by several service elements, is re-registered only once.
+    /// \details Held by unique_ptr to keep this class movable.
+    std::unique_ptr<std::mutex> shm_object_reregistration_mutex_{std::make_unique<std::mutex>()};
+
     /// \brief Threshold for switching from LogInfo to LogDebug level during consecutive failures
     /// \details After this many consecutive (limited by 10 for the moment) "no tracing slot available" failures,
     ///          subsequent failure messages will be logged at LogDebug level instead of LogInfo to reduce DLT
-- 
2.43.0


From 6860d46320ab95d16633947bcc461b8647578a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:08 +0000
Subject: [PATCH 40/44] fix: do not trace samples after the QM consumers were
 cut off

A traced sample is referenced in the QM control, where samples are not marked as ready any more. The precondition of the
reference terminated the provider with its next sample.
---
 score/mw/com/impl/bindings/lola/skeleton_event_common.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/skeleton_event_common.h b/score/mw/com/impl/bindings/lola/skeleton_event_common.h
index 7b73029..0bc17a8 100644
--- a/score/mw/com/impl/bindings/lola/skeleton_event_common.h
+++ b/score/mw/com/impl/bindings/lola/skeleton_event_common.h
@@ -150,10 +150,11 @@ class SkeletonEventCommon
         return {};
     }
 
-    /// \brief Returns whether PrepareOfferCommon() has set up everything that is needed to trace sent samples.
+    /// \brief Returns whether PrepareOfferCommon() has set up everything that is needed to trace sent samples and whether
+    /// the QM control, which a traced sample is referenced in, is still in use.
     bool IsPreparedForTracing() const noexcept
     {
-        return type_erased_sample_ptrs_guard_.has_value();
+        return type_erased_sample_ptrs_guard_.has_value() && !qm_disconnect_;
     }
 
     /// \brief Unset the callback for Receive Handler registration change notifications
-- 
2.43.0


From 717776249d52e5b12e1a333b87e7ae3f0fdc2b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:52 +0000
Subject: [PATCH 41/44] fix: report a lost gateway link instead of terminating
 with SIGPIPE

---
 score/mw/com/gateway/transport_layer/sample/message_framer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/score/mw/com/gateway/transport_layer/sample/message_framer.cpp b/score/mw/com/gateway/transport_layer/sample/message_framer.cpp
index b1405c9..dd9f23d 100644
--- a/score/mw/com/gateway/transport_layer/sample/message_framer.cpp
+++ b/score/mw/com/gateway/transport_layer/sample/message_framer.cpp
@@ -31,7 +31,8 @@ int SendAll(std::int32_t socket_fd, const void* data, std::size_t length)
     auto* ptr = static_cast<const char*>(data);
     while (length > 0)
     {
-        auto result = Socket::instance().sendto(socket_fd, ptr, length, Socket::MessageFlag::kNone, nullptr, 0);
+        // Without kNoSignal, sending on a connection the peer has closed would terminate the process with SIGPIPE.
+        auto result = Socket::instance().sendto(socket_fd, ptr, length, Socket::MessageFlag::kNoSignal, nullptr, 0);
         if (!result.has_value())
         {
             return -1;
-- 
2.43.0


From fcad884400471f3ea5ff4ff38f312b69c316cf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:04 +0000
Subject: [PATCH 42/44] fix: transfer the names of service elements over the
 gateway link instead of pointers to them

---
 .../sample/messages/gateway_messages.cpp      |  4 +-
 .../sample/messages/gateway_messages.h        | 42 +++++++++++++++++--
 2 files changed, 41 insertions(+), 5 deletions(-)

diff --git a/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.cpp b/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.cpp
index 6d9dec7..44b50f5 100644
--- a/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.cpp
+++ b/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.cpp
@@ -60,7 +60,9 @@ std::size_t ProvideServiceRequest::Serialize(score::cpp::span<std::uint8_t> buff
 
 bool ProvideServiceRequest::Deserialize(score::cpp::span<const std::uint8_t> data)
 {
-    return DeserializeWithTemplate(*this, data);
+    const bool result = DeserializeWithTemplate(*this, data);
+    UpdateElements();
+    return result;
 }
 
 std::size_t AckResponse::Serialize(score::cpp::span<std::uint8_t> buffer) const
diff --git a/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.h b/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.h
index ec05266..6d5d292 100644
--- a/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.h
+++ b/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.h
@@ -30,17 +30,34 @@ namespace score::mw::com::gateway
 /// (generic) skeleton for the given service instance.
 class ProvideServiceRequest : public TransportMessage
 {
+    /// \brief Wire representation of an EventInfo. An EventInfo only refers to its name, so it cannot be transferred to
+    /// another process as it is.
+    struct ElementOnWire
+    {
+        std::string name;
+        score::mw::com::DataTypeMetaInfo data_type_meta_info;
+
+        std::tuple<const std::string&, const score::mw::com::DataTypeMetaInfo&> GetSerializeMembers() const
+        {
+            return {name, data_type_meta_info};
+        }
+        std::tuple<std::string&, score::mw::com::DataTypeMetaInfo&> GetSerializeMembers()
+        {
+            return {name, data_type_meta_info};
+        }
+    };
+
     template <typename Self>
     static auto GetSerializeMembersImpl(Self& self)
     {
         using SelfNoRef = std::remove_reference_t<Self>;
         using StringType = std::conditional_t<std::is_const_v<SelfNoRef>, const std::string, std::string>;
         using VectorType = std::conditional_t<std::is_const_v<SelfNoRef>,
-                                              const std::vector<score::mw::com::EventInfo>,
-                                              std::vector<score::mw::com::EventInfo>>;
+                                              const std::vector<ElementOnWire>,
+                                              std::vector<ElementOnWire>>;
         using Uint32Type = std::conditional_t<std::is_const_v<SelfNoRef>, const std::uint32_t, std::uint32_t>;
         return std::tuple<StringType&, VectorType&, Uint32Type&, Uint32Type&>(
-            self.instance_specifier_, self.elements_, self.shm_control_size_, self.shm_data_size_);
+            self.instance_specifier_, self.elements_on_wire_, self.shm_control_size_, self.shm_data_size_);
     }
 
   public:
@@ -52,10 +69,15 @@ class ProvideServiceRequest : public TransportMessage
                           std::uint32_t shm_data_size = 0U)
         : TransportMessage(MessageType::kProvideServiceRequest),
           instance_specifier_(std::string{service_instance_specifier.ToString()}),
-          elements_(std::move(service_elements)),
           shm_control_size_(shm_control_size),
           shm_data_size_(shm_data_size)
     {
+        elements_on_wire_.reserve(service_elements.size());
+        for (const auto& element : service_elements)
+        {
+            elements_on_wire_.push_back(ElementOnWire{std::string{element.name}, element.data_type_meta_info});
+        }
+        UpdateElements();
     }
 
     std::size_t Serialize(score::cpp::span<std::uint8_t> buffer) const override;
@@ -91,7 +113,19 @@ class ProvideServiceRequest : public TransportMessage
     }
 
   private:
+    /// \brief Lets elements_ refer to the names owned by elements_on_wire_.
+    void UpdateElements()
+    {
+        elements_.clear();
+        elements_.reserve(elements_on_wire_.size());
+        for (const auto& element : elements_on_wire_)
+        {
+            elements_.push_back(score::mw::com::EventInfo{element.name, element.data_type_meta_info});
+        }
+    }
+
     std::string instance_specifier_;
+    std::vector<ElementOnWire> elements_on_wire_;
     std::vector<score::mw::com::EventInfo> elements_;
     std::uint32_t shm_control_size_{0U};
     std::uint32_t shm_data_size_{0U};
-- 
2.43.0


From e7528cef62a17f78d42bb040bb81ba5e2d51027a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:04 +0000
Subject: [PATCH 43/44] fix: do not abandon a frame of the gateway link when
 sending is interrupted

---
 .../com/gateway/transport_layer/sample/message_framer.cpp  | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/score/mw/com/gateway/transport_layer/sample/message_framer.cpp b/score/mw/com/gateway/transport_layer/sample/message_framer.cpp
index dd9f23d..7771a0f 100644
--- a/score/mw/com/gateway/transport_layer/sample/message_framer.cpp
+++ b/score/mw/com/gateway/transport_layer/sample/message_framer.cpp
@@ -17,6 +17,8 @@
 
 #include <score/span.hpp>
 
+#include <cerrno>
+
 namespace score::mw::com::gateway
 {
 
@@ -35,6 +37,11 @@ int SendAll(std::int32_t socket_fd, const void* data, std::size_t length)
         auto result = Socket::instance().sendto(socket_fd, ptr, length, Socket::MessageFlag::kNoSignal, nullptr, 0);
         if (!result.has_value())
         {
+            if (result.error() == score::os::Error::createFromErrno(EINTR))
+            {
+                // Giving up here would leave a part of a frame in the stream, which the peer could not recognize.
+                continue;
+            }
             return -1;
         }
         const auto sent = static_cast<std::size_t>(result.value());
-- 
2.43.0


From 7c1fd4258099847aef3a6d19fc7739a37487c1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:06 +0000
Subject: [PATCH 44/44] fix: end the gateway link whenever it is shut down

Shutdown() set the flag of the dispatch loop without its mutex, so the notification could be lost, and a
connection that was being established meanwhile was received from for ever.
---
 .../sample/bidirectional_transport.cpp               | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp b/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp
index a700aba..ec22f02 100644
--- a/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp
+++ b/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp
@@ -224,6 +224,12 @@ void BidirectionalTransport::ConnectionLoop(score::cpp::stop_token stop_token)
         }
 
         is_connected_ = true;
+        if (dispatch_shutdown_.load())
+        {
+            // Shutdown() may have looked at the sockets before they were set up, so nobody would end the receive loop.
+            CleanupSocketsForReconnection();
+            break;
+        }
         ReceiveUntilDisconnect(stop_token);
 
         CleanupSocketsForReconnection();
@@ -478,6 +484,11 @@ bool BidirectionalTransport::IsConnected() const
 
 void BidirectionalTransport::Shutdown()
 {
+    {
+        // The mutex ensures that the dispatch loop either sees the flag or is already waiting for the notification.
+        std::lock_guard<std::mutex> lock(dispatch_mutex_);
+        dispatch_shutdown_ = true;
+    }
     is_connected_ = false;
 
     pending_tracker_->NotifyAll();
@@ -486,7 +497,6 @@ void BidirectionalTransport::Shutdown()
     receive_socket_.ShutdownFd();
     listen_socket_.ShutdownFd();
 
-    dispatch_shutdown_ = true;
     dispatch_cv_.notify_all();
 
     threads_.Shutdown();
-- 
2.43.0

