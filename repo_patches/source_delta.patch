From 1b42f7c62eac45d8822e60d3ba052229bd10d677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:17 +0000
Subject: [PATCH 01/21] fix: mpsc: a failed try_send must not discard the waker
 registered by poll_ready

poll_ready returning Pending promises that the task is notified once there is
capacity. A later try_send on the same Sender that failed with Full overwrote
the registered waker with None, so the promised notification never came.
---
 futures-channel/src/mpsc/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/futures-channel/src/mpsc/mod.rs b/futures-channel/src/mpsc/mod.rs
index c3e03e3..1a16fe4 100644
--- a/futures-channel/src/mpsc/mod.rs
+++ b/futures-channel/src/mpsc/mod.rs
@@ -704,8 +704,11 @@ impl<T> BoundedSenderInner<T> {
             // the correct task will be notified.
             //
             // Update the task in case the `Sender` has been moved to another
-            // task
-            task.task = cx.map(|cx| cx.waker().clone());
+            // task. Without a context (`try_send`), keep the task that was
+            // registered by an earlier `poll_ready`.
+            if let Some(cx) = cx {
+                task.task = Some(cx.waker().clone());
+            }
 
             Poll::Pending
         } else {
-- 
2.43.0


From 612cf7b796c9bef67b8988ea35de4108a426f9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:33 +0000
Subject: [PATCH 02/21] fix: Shared: pass the wakeup on when a notified handle
 is dropped

A handle that polls while another one is inside the inner future's poll only
registers its waker and relies on that other handle to poll again. If the
inner future was woken during that poll and the polling handle is dropped
before it is polled again, nobody polled the inner future any more and the
remaining handles hung. Pass the wakeup on when a handle is dropped that has
been woken but not polled since.
---
 futures-util/src/future/future/shared.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/futures-util/src/future/future/shared.rs b/futures-util/src/future/future/shared.rs
index 6d1b7c5..d7450e0 100644
--- a/futures-util/src/future/future/shared.rs
+++ b/futures-util/src/future/future/shared.rs
@@ -379,6 +379,18 @@ where
     }
 }
 
+/// Removes the waker of a handle that is being dropped.
+///
+/// If that waker has been woken and the handle was not polled since, another
+/// handle that found the inner future being polled in the meantime may rely on
+/// the dropped one to poll again, so a waker to pass the wakeup on to is returned.
+fn remove_waker(wakers: &mut Slab<Option<Waker>>, waker_key: usize) -> Option<Waker> {
+    match wakers.remove(waker_key) {
+        Some(_) => None,
+        None => wakers.iter_mut().find_map(|(_, slot)| slot.take()),
+    }
+}
+
 impl<Fut> Clone for Shared<Fut>
 where
     Fut: Future,
@@ -395,15 +407,19 @@ where
     fn drop(&mut self) {
         if self.waker_key != NULL_WAKER_KEY {
             if let Some(ref inner) = self.inner {
+                let mut next_waker = None;
                 #[cfg(feature = "std")]
                 if let Ok(mut wakers) = inner.notifier.wakers.lock() {
                     if let Some(wakers) = wakers.as_mut() {
-                        wakers.remove(self.waker_key);
+                        next_waker = remove_waker(wakers, self.waker_key);
                     }
                 }
                 #[cfg(not(feature = "std"))]
                 if let Some(wakers) = inner.notifier.wakers.lock().as_mut() {
-                    wakers.remove(self.waker_key);
+                    next_waker = remove_waker(wakers, self.waker_key);
+                }
+                if let Some(waker) = next_waker {
+                    waker.wake();
                 }
             }
         }
-- 
2.43.0


From 789e0aaeecd7ddb2d5ce008ef0201bd81f66a93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:10 +0000
Subject: [PATCH 03/21] fix: Scan::size_hint: no lower bound, and count the
 item being processed

The closure may end the stream at any item, so there is no lower bound, and
an item whose future is still running has left the underlying stream's hint
but can still be yielded.
---
 futures-util/src/stream/stream/scan.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/futures-util/src/stream/stream/scan.rs b/futures-util/src/stream/stream/scan.rs
index b3623b7..f084042 100644
--- a/futures-util/src/stream/stream/scan.rs
+++ b/futures-util/src/stream/stream/scan.rs
@@ -100,7 +100,13 @@ where
         if self.is_done_taking() {
             (0, Some(0))
         } else {
-            self.stream.size_hint() // can't know a lower bound, due to the predicate
+            let pending_len = usize::from(self.state.is_future());
+            let (_, upper) = self.stream.size_hint();
+            let upper = match upper {
+                Some(x) => x.checked_add(pending_len),
+                None => None,
+            };
+            (0, upper) // can't know a lower bound, due to the predicate
         }
     }
 }
-- 
2.43.0


From 5797483334bd80cc5780d37bbcfeea430efcbdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:10 +0000
Subject: [PATCH 04/21] fix: TakeUntil::size_hint: no lower bound while the
 future can still stop the stream

---
 futures-util/src/stream/stream/take_until.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/futures-util/src/stream/stream/take_until.rs b/futures-util/src/stream/stream/take_until.rs
index 82d18ab..f7246e8 100644
--- a/futures-util/src/stream/stream/take_until.rs
+++ b/futures-util/src/stream/stream/take_until.rs
@@ -145,7 +145,9 @@ where
             return (0, Some(0));
         }
 
-        self.stream.size_hint()
+        let (lower, upper) = self.stream.size_hint();
+        // the future can stop the stream at any moment, unless it was taken away
+        (if self.free { lower } else { 0 }, upper)
     }
 }
 
-- 
2.43.0


From 9f9cec623747d7ba439d20797ee33d40c36d8162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:10 +0000
Subject: [PATCH 05/21] fix: Zip::is_terminated: true once either stream has
 ended

Zip ends as soon as one of its streams does, but reported itself as not
terminated until the other one had ended too, so a select loop waiting for
completion would spin on it.
---
 futures-util/src/stream/stream/zip.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/futures-util/src/stream/stream/zip.rs b/futures-util/src/stream/stream/zip.rs
index 9f074ee..2bfa0dd 100644
--- a/futures-util/src/stream/stream/zip.rs
+++ b/futures-util/src/stream/stream/zip.rs
@@ -67,7 +67,7 @@ where
     St2: Stream,
 {
     fn is_terminated(&self) -> bool {
-        self.stream1.is_terminated() && self.stream2.is_terminated()
+        self.stream1.is_terminated() || self.stream2.is_terminated()
     }
 }
 
-- 
2.43.0


From 9b7d6a06372958425ffaa71e820f33b98eb26cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:13 +0000
Subject: [PATCH 06/21] fix: try_join_all: report an error at once, also with
 more than 30 futures

Above the small-list limit the futures were collected through FuturesOrdered, which
withholds an error until every future before the failed one has completed, so that
try_join_all could hang on a future that should have been cancelled.
---
 futures-util/src/future/try_join_all.rs | 68 ++++++++++++++++++++++---
 1 file changed, 61 insertions(+), 7 deletions(-)

diff --git a/futures-util/src/future/try_join_all.rs b/futures-util/src/future/try_join_all.rs
index a998c38..da0d5e3 100644
--- a/futures-util/src/future/try_join_all.rs
+++ b/futures-util/src/future/try_join_all.rs
@@ -11,10 +11,13 @@ use core::{
     task::{Context, Poll},
 };
 
+#[cfg(target_has_atomic = "ptr")]
+use futures_core::ready;
+
 use super::{IntoFuture, TryFuture, TryMaybeDone, assert_future, join_all};
 use crate::TryFutureExt;
 #[cfg(target_has_atomic = "ptr")]
-use crate::stream::{FuturesOrdered, TryCollect, TryStreamExt};
+use crate::stream::{FuturesUnordered, StreamExt};
 
 enum FinalState<E = ()> {
     Pending,
@@ -31,6 +34,9 @@ where
     kind: TryJoinAllKind<F>,
 }
 
+// The futures are boxed or owned by a `FuturesUnordered`, and the outputs are never pinned.
+impl<F> Unpin for TryJoinAll<F> where F: TryFuture {}
+
 enum TryJoinAllKind<F>
 where
     F: TryFuture,
@@ -40,10 +46,33 @@ where
     },
     #[cfg(target_has_atomic = "ptr")]
     Big {
-        fut: TryCollect<FuturesOrdered<IntoFuture<F>>, Vec<F::Ok>>,
+        futs: FuturesUnordered<Indexed<IntoFuture<F>>>,
+        outputs: Vec<Option<F::Ok>>,
     },
 }
 
+#[cfg(target_has_atomic = "ptr")]
+pin_project_lite::pin_project! {
+    // Tags the output of a future with the future's position in the list.
+    #[derive(Debug)]
+    struct Indexed<F> {
+        #[pin]
+        future: F,
+        index: usize,
+    }
+}
+
+#[cfg(target_has_atomic = "ptr")]
+impl<F: TryFuture> Future for Indexed<F> {
+    type Output = Result<(usize, F::Ok), F::Error>;
+
+    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
+        let this = self.project();
+        let index = *this.index;
+        this.future.try_poll(cx).map_ok(|output| (index, output))
+    }
+}
+
 impl<F> fmt::Debug for TryJoinAll<F>
 where
     F: TryFuture + fmt::Debug,
@@ -57,7 +86,11 @@ where
                 f.debug_struct("TryJoinAll").field("elems", elems).finish()
             }
             #[cfg(target_has_atomic = "ptr")]
-            TryJoinAllKind::Big { ref fut, .. } => fmt::Debug::fmt(fut, f),
+            TryJoinAllKind::Big { ref futs, ref outputs } => f
+                .debug_struct("TryJoinAll")
+                .field("futs", futs)
+                .field("outputs", outputs)
+                .finish(),
         }
     }
 }
@@ -79,9 +112,9 @@ where
 ///
 /// # See Also
 ///
-/// `try_join_all` will switch to the more powerful [`FuturesOrdered`] for performance
+/// `try_join_all` will switch to the more powerful [`FuturesUnordered`] for performance
 /// reasons if the number of futures is large. You may want to look into using it or
-/// it's counterpart [`FuturesUnordered`][crate::stream::FuturesUnordered] directly.
+/// it's counterpart [`FuturesOrdered`][crate::stream::FuturesOrdered] directly.
 ///
 /// Some examples for additional functionality provided by these are:
 ///
@@ -138,7 +171,14 @@ where
             Some(max) if max <= join_all::SMALL => TryJoinAllKind::Small {
                 elems: iter.map(TryMaybeDone::Future).collect::<Box<[_]>>().into(),
             },
-            _ => TryJoinAllKind::Big { fut: iter.collect::<FuturesOrdered<_>>().try_collect() },
+            _ => {
+                let futs = iter
+                    .enumerate()
+                    .map(|(index, future)| Indexed { future, index })
+                    .collect::<FuturesUnordered<_>>();
+                let outputs = (0..futs.len()).map(|_| None).collect();
+                TryJoinAllKind::Big { futs, outputs }
+            }
         };
 
         assert_future::<Result<Vec<<I::Item as TryFuture>::Ok>, <I::Item as TryFuture>::Error>, _>(
@@ -185,7 +225,21 @@ where
                 }
             }
             #[cfg(target_has_atomic = "ptr")]
-            TryJoinAllKind::Big { fut } => Pin::new(fut).poll(cx),
+            TryJoinAllKind::Big { futs, outputs } => loop {
+                match ready!(futs.poll_next_unpin(cx)) {
+                    Some(Ok((index, output))) => outputs[index] = Some(output),
+                    // Do not wait for the futures before the failed one in the list.
+                    Some(Err(e)) => {
+                        *futs = FuturesUnordered::new();
+                        outputs.clear();
+                        return Poll::Ready(Err(e));
+                    }
+                    None => {
+                        let results = mem::take(outputs).into_iter().map(|o| o.unwrap()).collect();
+                        return Poll::Ready(Ok(results));
+                    }
+                }
+            },
         }
     }
 }
-- 
2.43.0


From 4686a2129a20f591cc314863f791ac0aa3231b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:52 +0000
Subject: [PATCH 07/21] fix: TrySkipWhile, TryTakeWhile: drop the item whose
 predicate failed

It stayed behind as a pending item, so that is_terminated was false after the end.
---
 futures-util/src/stream/try_stream/try_skip_while.rs | 2 +-
 futures-util/src/stream/try_stream/try_take_while.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/futures-util/src/stream/try_stream/try_skip_while.rs b/futures-util/src/stream/try_stream/try_skip_while.rs
index 2eea2e7..f9a059f 100644
--- a/futures-util/src/stream/try_stream/try_skip_while.rs
+++ b/futures-util/src/stream/try_stream/try_skip_while.rs
@@ -73,8 +73,8 @@ where
             if let Some(fut) = this.pending_fut.as_mut().as_pin_mut() {
                 let res = ready!(fut.try_poll(cx));
                 this.pending_fut.set(None);
-                let skipped = res?;
                 let item = this.pending_item.take();
+                let skipped = res?;
                 if !skipped {
                     *this.done_skipping = true;
                     break item.map(Ok);
diff --git a/futures-util/src/stream/try_stream/try_take_while.rs b/futures-util/src/stream/try_stream/try_take_while.rs
index e2da18a..4222f84 100644
--- a/futures-util/src/stream/try_stream/try_take_while.rs
+++ b/futures-util/src/stream/try_stream/try_take_while.rs
@@ -76,8 +76,8 @@ where
             if let Some(fut) = this.pending_fut.as_mut().as_pin_mut() {
                 let res = ready!(fut.try_poll(cx));
                 this.pending_fut.set(None);
-                let take = res?;
                 let item = this.pending_item.take();
+                let take = res?;
                 if take {
                     break item.map(Ok);
                 } else {
-- 
2.43.0


From 668d296ac2741dd42c9774b5d31163553a1b07ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:42 +0000
Subject: [PATCH 08/21] fix: stream_select!: do not poll a stream again that
 has ended

A stream that ended in a poll in which another one yielded an item was not
recorded as ended, and was polled again.
---
 futures-macro/src/stream_select.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/futures-macro/src/stream_select.rs b/futures-macro/src/stream_select.rs
index a5d6498..10d1e5b 100644
--- a/futures-macro/src/stream_select.rs
+++ b/futures-macro/src/stream_select.rs
@@ -54,6 +54,7 @@ pub(crate) fn stream_select(input: TokenStream) -> Result<TokenStream, syn::Erro
                         let mut #field_idents_2 = false;
                     )*
                     let mut any_pending = false;
+                    let mut item = None;
                     {
                         let mut stream_array = [#(#field_idents.as_mut().map(|f| StreamEnum::#generic_idents(f)).unwrap_or(StreamEnum::None)),*];
                         __futures_crate::async_await::shuffle(&mut stream_array);
@@ -63,8 +64,10 @@ pub(crate) fn stream_select(input: TokenStream) -> Result<TokenStream, syn::Erro
                                 continue;
                             } else {
                                 match __futures_crate::stream::Stream::poll_next(::std::pin::Pin::new(&mut s), cx) {
-                                    r @ __futures_crate::task::Poll::Ready(Some(_)) => {
-                                        return r;
+                                    __futures_crate::task::Poll::Ready(Some(i)) => {
+                                        // Don't return yet: streams polled before this one may have ended.
+                                        item = Some(i);
+                                        break;
                                     },
                                     __futures_crate::task::Poll::Pending => {
                                         any_pending = true;
@@ -86,7 +89,9 @@ pub(crate) fn stream_select(input: TokenStream) -> Result<TokenStream, syn::Erro
                             *#field_idents = None;
                         }
                     )*
-                    if any_pending {
+                    if item.is_some() {
+                        __futures_crate::task::Poll::Ready(item)
+                    } else if any_pending {
                         __futures_crate::task::Poll::Pending
                     } else {
                         __futures_crate::task::Poll::Ready(None)
-- 
2.43.0


From 749e0af6c133585bbd9705c262f7cd1da9dea44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:56 +0000
Subject: [PATCH 09/21] fix: stream_select!: size_hint must not overflow

---
 futures-macro/src/stream_select.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/futures-macro/src/stream_select.rs b/futures-macro/src/stream_select.rs
index 10d1e5b..f70acbc 100644
--- a/futures-macro/src/stream_select.rs
+++ b/futures-macro/src/stream_select.rs
@@ -99,12 +99,12 @@ pub(crate) fn stream_select(input: TokenStream) -> Result<TokenStream, syn::Erro
                 }
 
                 fn size_hint(&self) -> (usize, Option<usize>) {
-                    let mut s = (0, Some(0));
+                    let mut s = (0_usize, Some(0_usize));
                     #(
                         if let Some(new_hint) = self.#field_indices.as_ref().map(|s| s.size_hint()) {
-                            s.0 += new_hint.0;
+                            s.0 = s.0.saturating_add(new_hint.0);
                             // We can change this out for `.zip` when the MSRV is 1.46.0 or higher.
-                            s.1 = s.1.and_then(|a| new_hint.1.map(|b| a + b));
+                            s.1 = s.1.and_then(|a: usize| new_hint.1.and_then(|b| a.checked_add(b)));
                         }
                     )*
                     s
-- 
2.43.0


From 6a3b6cc596b590bf98f7f390761836001fba24bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:35 +0000
Subject: [PATCH 10/21] fix: sink::With drops the mapping future when it fails

The completed future was kept, and polled again by the next sink operation.
---
 futures-util/src/sink/with.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/futures-util/src/sink/with.rs b/futures-util/src/sink/with.rs
index 8ec9e44..d6abaaf 100644
--- a/futures-util/src/sink/with.rs
+++ b/futures-util/src/sink/with.rs
@@ -99,12 +99,12 @@ where
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), E>> {
         let mut this = self.project();
 
-        let item = match this.state.as_mut().as_pin_mut() {
+        let res = match this.state.as_mut().as_pin_mut() {
             None => return Poll::Ready(Ok(())),
-            Some(fut) => ready!(fut.poll(cx))?,
+            Some(fut) => ready!(fut.poll(cx)),
         };
         this.state.set(None);
-        this.sink.start_send(item)?;
+        this.sink.start_send(res?)?;
         Poll::Ready(Ok(()))
     }
 }
-- 
2.43.0


From e2069ab2b6ade089552122a7b6cf7dee280586a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:02 +0000
Subject: [PATCH 11/21] fix: sink::Buffer does not ask a drained or closing
 sink for readiness

poll_flush and poll_close called the inner poll_ready even with nothing
buffered, also after the inner poll_close had begun or finished, which fails
on sinks such as mpsc::Sender.
---
 futures-util/src/sink/buffer.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/futures-util/src/sink/buffer.rs b/futures-util/src/sink/buffer.rs
index d022c23..532dcda 100644
--- a/futures-util/src/sink/buffer.rs
+++ b/futures-util/src/sink/buffer.rs
@@ -91,13 +91,17 @@ impl<Si: Sink<Item>, Item> Sink<Item> for Buffer<Si, Item> {
     }
 
     fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
-        ready!(self.as_mut().try_empty_buffer(cx))?;
+        if !self.buf.is_empty() {
+            ready!(self.as_mut().try_empty_buffer(cx))?;
+        }
         debug_assert!(self.buf.is_empty());
         self.project().sink.poll_flush(cx)
     }
 
     fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
-        ready!(self.as_mut().try_empty_buffer(cx))?;
+        if !self.buf.is_empty() {
+            ready!(self.as_mut().try_empty_buffer(cx))?;
+        }
         debug_assert!(self.buf.is_empty());
         self.project().sink.poll_close(cx)
     }
-- 
2.43.0


From e2bbb902077bbe566a598d4a37c974e9b12de8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:59 +0000
Subject: [PATCH 12/21] fix: IntoSink reports WriteZero instead of looping
 forever

A writer that returned Ok(0) for a non-empty block made poll_ready,
poll_flush and poll_close spin.
---
 futures-util/src/io/into_sink.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/futures-util/src/io/into_sink.rs b/futures-util/src/io/into_sink.rs
index 9fa2def..d680b10 100644
--- a/futures-util/src/io/into_sink.rs
+++ b/futures-util/src/io/into_sink.rs
@@ -50,6 +50,9 @@ impl<W: AsyncWrite, Item: AsRef<[u8]>> IntoSink<W, Item> {
                 if buffer.offset == bytes.len() {
                     break;
                 }
+                if written == 0 {
+                    return Poll::Ready(Err(io::ErrorKind::WriteZero.into()));
+                }
             }
         }
         *this.buffer = None;
-- 
2.43.0


From e53667f640a9fd4e97d4db4c60c0e73e220c51a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:27 +0000
Subject: [PATCH 13/21] fix: Lines keeps a partial line across an I/O error in
 its place

After an error in mid-line the bytes read so far were left in the wrong
buffer: the following line lost them and they resurfaced in a later one.
---
 futures-util/src/io/lines.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/futures-util/src/io/lines.rs b/futures-util/src/io/lines.rs
index 3e89f9e..4d85088 100644
--- a/futures-util/src/io/lines.rs
+++ b/futures-util/src/io/lines.rs
@@ -36,7 +36,20 @@ impl<R: AsyncBufRead> Stream for Lines<R> {
 
     fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
         let this = self.project();
-        let n = ready!(read_line_internal(this.reader, cx, this.buf, this.bytes, this.read))?;
+        let n = match ready!(read_line_internal(
+            this.reader,
+            cx,
+            this.buf,
+            this.bytes,
+            this.read
+        )) {
+            Ok(n) => n,
+            Err(e) => {
+                // what was read of the line so far is continued by the next call
+                *this.bytes = mem::take(this.buf).into_bytes();
+                return Poll::Ready(Some(Err(e)));
+            }
+        };
         *this.read = 0;
         if n == 0 && this.buf.is_empty() {
             return Poll::Ready(None);
-- 
2.43.0


From 39abf0b5697afb798c2fe76496cb04084fb8ba37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:57 +0000
Subject: [PATCH 14/21] fix: ReadToString keeps the string's contents when
 interrupted

Dropping the future, or invalid UTF-8 from the reader, left the caller's
string empty; restore it like ReadLine does.
---
 futures-util/src/io/read_to_string.rs | 40 +++++++++++++++++++--------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/futures-util/src/io/read_to_string.rs b/futures-util/src/io/read_to_string.rs
index de61d2c..530e42d 100644
--- a/futures-util/src/io/read_to_string.rs
+++ b/futures-util/src/io/read_to_string.rs
@@ -19,6 +19,7 @@ pub struct ReadToString<'a, R: ?Sized> {
     buf: &'a mut String,
     bytes: Vec<u8>,
     start_len: usize,
+    finished: bool,
 }
 
 impl<R: ?Sized + Unpin> Unpin for ReadToString<'_, R> {}
@@ -26,7 +27,7 @@ impl<R: ?Sized + Unpin> Unpin for ReadToString<'_, R> {}
 impl<'a, R: AsyncRead + ?Sized + Unpin> ReadToString<'a, R> {
     pub(super) fn new(reader: &'a mut R, buf: &'a mut String) -> Self {
         let start_len = buf.len();
-        Self { reader, bytes: mem::take(buf).into_bytes(), buf, start_len }
+        Self { reader, bytes: mem::take(buf).into_bytes(), buf, start_len, finished: false }
     }
 }
 
@@ -37,17 +38,18 @@ fn read_to_string_internal<R: AsyncRead + ?Sized>(
     bytes: &mut Vec<u8>,
     start_len: usize,
 ) -> Poll<io::Result<usize>> {
-    let ret = ready!(read_to_end_internal(reader, cx, bytes, start_len));
-    if str::from_utf8(bytes).is_err() {
-        Poll::Ready(ret.and_then(|_| {
+    let mut ret = ready!(read_to_end_internal(reader, cx, bytes, start_len));
+    if str::from_utf8(&bytes[start_len..]).is_err() {
+        bytes.truncate(start_len);
+        ret = ret.and_then(|_| {
             Err(io::Error::new(io::ErrorKind::InvalidData, "stream did not contain valid UTF-8"))
-        }))
-    } else {
-        debug_assert!(buf.is_empty());
-        // Safety: `bytes` is a valid UTF-8 because `str::from_utf8` returned `Ok`.
-        mem::swap(unsafe { buf.as_mut_vec() }, bytes);
-        Poll::Ready(ret)
+        });
     }
+    debug_assert!(buf.is_empty());
+    // Safety: `bytes` is valid UTF-8 because it was taken from a String
+    // and the newly read bytes are either valid UTF-8 or have been removed.
+    mem::swap(unsafe { buf.as_mut_vec() }, bytes);
+    Poll::Ready(ret)
 }
 
 impl<A> Future for ReadToString<'_, A>
@@ -57,7 +59,21 @@ where
     type Output = io::Result<usize>;
 
     fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
-        let Self { reader, buf, bytes, start_len } = &mut *self;
-        read_to_string_internal(Pin::new(reader), cx, buf, bytes, *start_len)
+        let Self { reader, buf, bytes, start_len, finished: _ } = &mut *self;
+        let ret = ready!(read_to_string_internal(Pin::new(reader), cx, buf, bytes, *start_len));
+        self.finished = true;
+        Poll::Ready(ret)
+    }
+}
+
+impl<R: ?Sized> Drop for ReadToString<'_, R> {
+    fn drop(&mut self) {
+        // restore old string contents
+        if !self.finished {
+            self.bytes.truncate(self.start_len);
+            // Safety: `bytes` is valid UTF-8 because it was taken from a String
+            // and the newly read bytes have been removed.
+            mem::swap(unsafe { self.buf.as_mut_vec() }, &mut self.bytes);
+        }
     }
 }
-- 
2.43.0


From b940c7396be8fe5bd5f1fb8835f6c679fb220a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:25 +0000
Subject: [PATCH 15/21] fix: BufReader::poll_seek_relative does not overflow
 for i64::MIN

---
 futures-util/src/io/buf_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/futures-util/src/io/buf_reader.rs b/futures-util/src/io/buf_reader.rs
index 117eb98..a3b2924 100644
--- a/futures-util/src/io/buf_reader.rs
+++ b/futures-util/src/io/buf_reader.rs
@@ -95,7 +95,7 @@ impl<R: AsyncRead + AsyncSeek> BufReader<R> {
     ) -> Poll<io::Result<()>> {
         let pos = self.pos as u64;
         if offset < 0 {
-            if let Some(new_pos) = pos.checked_sub((-offset) as u64) {
+            if let Some(new_pos) = pos.checked_sub(offset.unsigned_abs()) {
                 *self.project().pos = new_pos as usize;
                 return Poll::Ready(Ok(()));
             }
-- 
2.43.0


From cc30a9a0a9b14af40e6120f21d8bbccfc946439a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:54 +0000
Subject: [PATCH 16/21] fix: BufWriter::buffer excludes bytes already written

While a flush is pending, the bytes it has written so far are no longer
buffered data.
---
 futures-util/src/io/buf_writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/futures-util/src/io/buf_writer.rs b/futures-util/src/io/buf_writer.rs
index 20657dc..c26dd72 100644
--- a/futures-util/src/io/buf_writer.rs
+++ b/futures-util/src/io/buf_writer.rs
@@ -105,7 +105,7 @@ impl<W> BufWriter<W> {
 
     /// Returns a reference to the internally buffered data.
     pub fn buffer(&self) -> &[u8] {
-        &self.buf
+        &self.buf[self.written..]
     }
 
     /// Capacity of `buf`. how many chars can be held in buffer
-- 
2.43.0


From 4a9dfb5d6290e3503ef0b12cc4461e3055927e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:45 +0000
Subject: [PATCH 17/21] fix: Lines continues a line interrupted by an I/O error
 in every case

Also when the interrupted line turns out not to be UTF-8, or the error falls
into the middle of a character.
---
 futures-util/src/io/lines.rs | 36 +++++++++++++-----------------------
 1 file changed, 13 insertions(+), 23 deletions(-)

diff --git a/futures-util/src/io/lines.rs b/futures-util/src/io/lines.rs
index 4d85088..b5112bc 100644
--- a/futures-util/src/io/lines.rs
+++ b/futures-util/src/io/lines.rs
@@ -10,7 +10,7 @@ use futures_core::{
 use futures_io::AsyncBufRead;
 use pin_project_lite::pin_project;
 
-use super::read_line::read_line_internal;
+use super::read_until::read_until_internal;
 
 pin_project! {
     /// Stream for the [`lines`](super::AsyncBufReadExt::lines) method.
@@ -19,7 +19,6 @@ pin_project! {
     pub struct Lines<R> {
         #[pin]
         reader: R,
-        buf: String,
         bytes: Vec<u8>,
         read: usize,
     }
@@ -27,7 +26,7 @@ pin_project! {
 
 impl<R: AsyncBufRead> Lines<R> {
     pub(super) fn new(reader: R) -> Self {
-        Self { reader, buf: String::new(), bytes: Vec::new(), read: 0 }
+        Self { reader, bytes: Vec::new(), read: 0 }
     }
 }
 
@@ -36,30 +35,21 @@ impl<R: AsyncBufRead> Stream for Lines<R> {
 
     fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
         let this = self.project();
-        let n = match ready!(read_line_internal(
-            this.reader,
-            cx,
-            this.buf,
-            this.bytes,
-            this.read
-        )) {
-            Ok(n) => n,
-            Err(e) => {
-                // what was read of the line so far is continued by the next call
-                *this.bytes = mem::take(this.buf).into_bytes();
-                return Poll::Ready(Some(Err(e)));
-            }
-        };
+        // on error, what was read of the line so far is kept for the next call
+        let n = ready!(read_until_internal(this.reader, cx, b'\n', this.bytes, this.read))?;
         *this.read = 0;
-        if n == 0 && this.buf.is_empty() {
+        if n == 0 && this.bytes.is_empty() {
             return Poll::Ready(None);
         }
-        if this.buf.ends_with('\n') {
-            this.buf.pop();
-            if this.buf.ends_with('\r') {
-                this.buf.pop();
+        let mut line = String::from_utf8(mem::take(this.bytes)).map_err(|_| {
+            io::Error::new(io::ErrorKind::InvalidData, "stream did not contain valid UTF-8")
+        })?;
+        if line.ends_with('\n') {
+            line.pop();
+            if line.ends_with('\r') {
+                line.pop();
             }
         }
-        Poll::Ready(Some(Ok(mem::take(this.buf))))
+        Poll::Ready(Some(Ok(line)))
     }
 }
-- 
2.43.0


From dd5c6c3d53463c2d472c835c98e9cf3845bab04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:46 +0000
Subject: [PATCH 18/21] fix: PollImmediate stream: size_hint has no upper bound
 while Pending items can come

---
 futures-util/src/stream/poll_immediate.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/futures-util/src/stream/poll_immediate.rs b/futures-util/src/stream/poll_immediate.rs
index e153b81..59b46ff 100644
--- a/futures-util/src/stream/poll_immediate.rs
+++ b/futures-util/src/stream/poll_immediate.rs
@@ -43,7 +43,8 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.stream.as_ref().map_or((0, Some(0)), Stream::size_hint)
+        // Any number of `Poll::Pending` items can come in addition to those of the stream.
+        self.stream.as_ref().map_or((0, Some(0)), |stream| (stream.size_hint().0, None))
     }
 }
 
-- 
2.43.0


From 347184539b3631048192f3f5c5eb641178f84009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:36 +0000
Subject: [PATCH 19/21] fix: lock::Mutex wakes waiters after unlocking its
 waiter list

---
 futures-util/src/lock/mutex.rs | 49 +++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/futures-util/src/lock/mutex.rs b/futures-util/src/lock/mutex.rs
index 9b1ccfa..d5b8362 100644
--- a/futures-util/src/lock/mutex.rs
+++ b/futures-util/src/lock/mutex.rs
@@ -58,17 +58,24 @@ enum Waiter {
 }
 
 impl Waiter {
-    fn register(&mut self, waker: &Waker) {
+    // Returns the waker that was replaced, which must be dropped only after
+    // `waiters` has been unlocked.
+    fn register(&mut self, waker: &Waker) -> Option<Waker> {
         match self {
-            Self::Waiting(w) if waker.will_wake(w) => {}
-            _ => *self = Self::Waiting(waker.clone()),
+            Self::Waiting(w) if waker.will_wake(w) => None,
+            _ => match mem::replace(self, Self::Waiting(waker.clone())) {
+                Self::Waiting(waker) => Some(waker),
+                Self::Woken => None,
+            },
         }
     }
 
-    fn wake(&mut self) {
+    // Returns the waker, which must be woken only after `waiters` has been
+    // unlocked, as that may run or drop a task that uses the same mutex.
+    fn wake(&mut self) -> Option<Waker> {
         match mem::replace(self, Self::Woken) {
-            Self::Waiting(waker) => waker.wake(),
-            Self::Woken => {}
+            Self::Waiting(waker) => Some(waker),
+            Self::Woken => None,
         }
     }
 }
@@ -165,6 +172,7 @@ impl<T: ?Sized> Mutex<T> {
             let mut waiters = self.waiters.lock().unwrap();
 
             let removed_waker = waiters.remove(wait_key);
+            let mut next_waker = None;
 
             match removed_waker {
                 Waiter::Waiting(_) => {}
@@ -174,7 +182,7 @@ impl<T: ?Sized> Mutex<T> {
                     // waiter.
                     if wake_another {
                         if let Some((_i, waiter)) = waiters.iter_mut().next() {
-                            waiter.wake();
+                            next_waker = waiter.wake();
                         }
                     }
                 }
@@ -182,6 +190,11 @@ impl<T: ?Sized> Mutex<T> {
             if waiters.is_empty() {
                 self.state.fetch_and(!HAS_WAITERS, Ordering::Relaxed); // released by mutex unlock
             }
+
+            drop(waiters);
+            if let Some(waker) = next_waker {
+                waker.wake();
+            }
         }
     }
 
@@ -191,8 +204,10 @@ impl<T: ?Sized> Mutex<T> {
         let old_state = self.state.fetch_and(!IS_LOCKED, Ordering::AcqRel);
         if (old_state & HAS_WAITERS) != 0 {
             let mut waiters = self.waiters.lock().unwrap();
-            if let Some((_i, waiter)) = waiters.iter_mut().next() {
-                waiter.wake();
+            let waker = waiters.iter_mut().next().and_then(|(_i, waiter)| waiter.wake());
+            drop(waiters);
+            if let Some(waker) = waker {
+                waker.wake();
             }
         }
     }
@@ -241,17 +256,19 @@ impl<T: ?Sized> Future for OwnedMutexLockFuture<T> {
             return Poll::Ready(lock);
         }
 
-        {
+        let replaced_waker = {
             let mut waiters = mutex.waiters.lock().unwrap();
             if this.wait_key == WAIT_KEY_NONE {
                 this.wait_key = waiters.insert(Waiter::Waiting(cx.waker().clone()));
                 if waiters.len() == 1 {
                     mutex.state.fetch_or(HAS_WAITERS, Ordering::Relaxed); // released by mutex unlock
                 }
+                None
             } else {
-                waiters[this.wait_key].register(cx.waker());
+                waiters[this.wait_key].register(cx.waker())
             }
-        }
+        };
+        drop(replaced_waker);
 
         // Ensure that we haven't raced `MutexGuard::drop`'s unlock path by
         // attempting to acquire the lock again.
@@ -351,17 +368,19 @@ impl<'a, T: ?Sized> Future for MutexLockFuture<'a, T> {
             return Poll::Ready(lock);
         }
 
-        {
+        let replaced_waker = {
             let mut waiters = mutex.waiters.lock().unwrap();
             if self.wait_key == WAIT_KEY_NONE {
                 self.wait_key = waiters.insert(Waiter::Waiting(cx.waker().clone()));
                 if waiters.len() == 1 {
                     mutex.state.fetch_or(HAS_WAITERS, Ordering::Relaxed); // released by mutex unlock
                 }
+                None
             } else {
-                waiters[self.wait_key].register(cx.waker());
+                waiters[self.wait_key].register(cx.waker())
             }
-        }
+        };
+        drop(replaced_waker);
 
         // Ensure that we haven't raced `MutexGuard::drop`'s unlock path by
         // attempting to acquire the lock again.
-- 
2.43.0


From 75f253b2d0eac9e01f33101442f423eac44a3c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:27 +0000
Subject: [PATCH 20/21] fix: Shared wakes its handles without holding the lock
 on their wakers

---
 futures-util/src/future/future/shared.rs | 60 +++++++++++++++---------
 1 file changed, 38 insertions(+), 22 deletions(-)

diff --git a/futures-util/src/future/future/shared.rs b/futures-util/src/future/future/shared.rs
index d7450e0..43b4f19 100644
--- a/futures-util/src/future/future/shared.rs
+++ b/futures-util/src/future/future/shared.rs
@@ -1,4 +1,7 @@
-use alloc::sync::{Arc, Weak};
+use alloc::{
+    sync::{Arc, Weak},
+    vec::Vec,
+};
 use core::{
     cell::UnsafeCell,
     fmt,
@@ -231,16 +234,20 @@ where
 
         let new_waker = cx.waker();
 
-        if *waker_key == NULL_WAKER_KEY {
+        let replaced_waker = if *waker_key == NULL_WAKER_KEY {
             *waker_key = wakers.insert(Some(new_waker.clone()));
+            None
         } else {
             match wakers[*waker_key] {
-                Some(ref old_waker) if new_waker.will_wake(old_waker) => {}
-                // Could use clone_from here, but Waker doesn't specialize it.
-                ref mut slot => *slot = Some(new_waker.clone()),
+                Some(ref old_waker) if new_waker.will_wake(old_waker) => None,
+                ref mut slot => slot.replace(new_waker.clone()),
             }
-        }
+        };
         debug_assert!(*waker_key != NULL_WAKER_KEY);
+
+        // Dropping a waker may run code that uses another handle.
+        drop(wakers_guard);
+        drop(replaced_waker);
     }
 
     /// Safety: callers must first ensure that `inner.state`
@@ -367,12 +374,12 @@ where
         let mut wakers_guard = inner.notifier.wakers.lock();
 
         let mut wakers = wakers_guard.take().unwrap();
+        drop(wakers_guard); // Waking may run or drop tasks that own other handles
         for waker in wakers.drain().flatten() {
             waker.wake();
         }
 
         drop(reset); // Make borrow checker happy
-        drop(wakers_guard);
 
         // Safety: We're in the COMPLETE state
         unsafe { Poll::Ready(inner.take_or_clone_output()) }
@@ -384,10 +391,16 @@ where
 /// If that waker has been woken and the handle was not polled since, another
 /// handle that found the inner future being polled in the meantime may rely on
 /// the dropped one to poll again, so a waker to pass the wakeup on to is returned.
-fn remove_waker(wakers: &mut Slab<Option<Waker>>, waker_key: usize) -> Option<Waker> {
+///
+/// Returns the removed waker and the waker to wake. Both may run code that uses
+/// another handle, so they must be dropped and woken without holding the lock.
+fn remove_waker(
+    wakers: &mut Slab<Option<Waker>>,
+    waker_key: usize,
+) -> (Option<Waker>, Option<Waker>) {
     match wakers.remove(waker_key) {
-        Some(_) => None,
-        None => wakers.iter_mut().find_map(|(_, slot)| slot.take()),
+        Some(removed) => (Some(removed), None),
+        None => (None, wakers.iter_mut().find_map(|(_, slot)| slot.take())),
     }
 }
 
@@ -407,18 +420,18 @@ where
     fn drop(&mut self) {
         if self.waker_key != NULL_WAKER_KEY {
             if let Some(ref inner) = self.inner {
-                let mut next_waker = None;
+                let mut removed = (None, None);
                 #[cfg(feature = "std")]
                 if let Ok(mut wakers) = inner.notifier.wakers.lock() {
                     if let Some(wakers) = wakers.as_mut() {
-                        next_waker = remove_waker(wakers, self.waker_key);
+                        removed = remove_waker(wakers, self.waker_key);
                     }
                 }
                 #[cfg(not(feature = "std"))]
                 if let Some(wakers) = inner.notifier.wakers.lock().as_mut() {
-                    next_waker = remove_waker(wakers, self.waker_key);
+                    removed = remove_waker(wakers, self.waker_key);
                 }
-                if let Some(waker) = next_waker {
+                if let (_, Some(waker)) = removed {
                     waker.wake();
                 }
             }
@@ -429,16 +442,19 @@ where
 impl ArcWake for Notifier {
     fn wake_by_ref(arc_self: &Arc<Self>) {
         #[cfg(feature = "std")]
-        let wakers = &mut *arc_self.wakers.lock().unwrap();
+        let mut wakers_guard = arc_self.wakers.lock().unwrap();
         #[cfg(not(feature = "std"))]
-        let wakers = &mut *arc_self.wakers.lock();
+        let mut wakers_guard = arc_self.wakers.lock();
 
-        if let Some(wakers) = wakers.as_mut() {
-            for (_key, opt_waker) in wakers {
-                if let Some(waker) = opt_waker.take() {
-                    waker.wake();
-                }
-            }
+        let wakers: Vec<Waker> = match wakers_guard.as_mut() {
+            Some(wakers) => wakers.iter_mut().filter_map(|(_key, slot)| slot.take()).collect(),
+            None => return,
+        };
+
+        // Waking may run or drop tasks that own handles
+        drop(wakers_guard);
+        for waker in wakers {
+            waker.wake();
         }
     }
 }
-- 
2.43.0


From 2e32178cf6af8a7019c0ff99b6d3e77bdaf30809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:19 +0000
Subject: [PATCH 21/21] fix: mpsc wakes a blocked sender without holding its
 lock

---
 futures-channel/src/mpsc/mod.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/futures-channel/src/mpsc/mod.rs b/futures-channel/src/mpsc/mod.rs
index 1a16fe4..8b8f581 100644
--- a/futures-channel/src/mpsc/mod.rs
+++ b/futures-channel/src/mpsc/mod.rs
@@ -360,10 +360,16 @@ impl SenderTask {
         Self { task: None, is_parked: false }
     }
 
-    fn notify(&mut self) {
-        self.is_parked = false;
+    fn notify(sender_task: &Mutex<Self>) {
+        let task = {
+            let mut sender_task = sender_task.lock().unwrap();
+            sender_task.is_parked = false;
+            sender_task.task.take()
+        };
 
-        if let Some(task) = self.task.take() {
+        // The lock must not be held here, as waking may run or drop the task
+        // that owns the sender.
+        if let Some(task) = task {
             task.wake();
         }
     }
@@ -707,7 +713,9 @@ impl<T> BoundedSenderInner<T> {
             // task. Without a context (`try_send`), keep the task that was
             // registered by an earlier `poll_ready`.
             if let Some(cx) = cx {
-                task.task = Some(cx.waker().clone());
+                let replaced_task = task.task.replace(cx.waker().clone());
+                drop(task);
+                drop(replaced_task); // may drop the receiver, which locks `sender_task`
             }
 
             Poll::Pending
@@ -1024,7 +1032,7 @@ impl<T> Receiver<T> {
             // Wake up any threads waiting as they'll see that we've closed the
             // channel and will continue on their merry way.
             while let Some(task) = unsafe { inner.parked_queue.pop_spin() } {
-                task.lock().unwrap().notify();
+                SenderTask::notify(&task);
             }
         }
     }
@@ -1099,7 +1107,7 @@ impl<T> Receiver<T> {
     fn unpark_one(&mut self) {
         if let Some(inner) = &mut self.inner {
             if let Some(task) = unsafe { inner.parked_queue.pop_spin() } {
-                task.lock().unwrap().notify();
+                SenderTask::notify(&task);
             }
         }
     }
-- 
2.43.0

