From 0e0d0ff13f9ec44fe0f1d80d794e957ef0de5022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:07 +0000
Subject: [PATCH 01/24] fix: key pointer caches with room for zero keys
 panicked on first use

---
 src/cache/key_pointers.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cache/key_pointers.rs b/src/cache/key_pointers.rs
index 726eec1..48a6243 100644
--- a/src/cache/key_pointers.rs
+++ b/src/cache/key_pointers.rs
@@ -130,9 +130,12 @@ pub(crate) struct TrackedKeyPointers<'a, KEY: Eq> {
 
 impl<'a, KEY: Eq> TrackedKeyPointers<'a, KEY> {
     fn insert_front(&mut self, value: (KEY, NonZeroU32)) {
-        let len = self.key_pointers.len();
-        self.key_pointers[len - 1] = Some(value);
-        move_to_front(self.key_pointers, len - 1);
+        // A cache without any slots can't remember anything
+        let Some(last) = self.key_pointers.len().checked_sub(1) else {
+            return;
+        };
+        self.key_pointers[last] = Some(value);
+        move_to_front(self.key_pointers, last);
     }
 }
 
-- 
2.43.0


From bf28ed9d87409fe179bccc5a2e3aae8b5476bf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:08 +0000
Subject: [PATCH 02/24] fix: find_max_fit forgot the item header when a whole
 page is free

---
 src/queue/mod.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/queue/mod.rs b/src/queue/mod.rs
index ac65308..15a1ba5 100644
--- a/src/queue/mod.rs
+++ b/src/queue/mod.rs
@@ -135,6 +135,12 @@ pub struct QueueStorage<S: NorFlash, C: CacheImpl<()>> {
     inner: GenericStorage<S, C, ()>,
 }
 
+/// The largest data length that an empty page can hold
+fn max_data_length<S: NorFlash>() -> Option<u32> {
+    ItemHeader::available_data_bytes::<S>((S::ERASE_SIZE - (2 * S::WORD_SIZE)) as u32)
+        .map(|available| available.min(u32::from(u16::MAX)))
+}
+
 impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
     /// Create a new (fifo) queue instance
     ///
@@ -359,12 +365,12 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
             state @ PageState::Closed => {
                 if self.inner.is_page_empty(next_page, Some(state)).await? {
                     self.inner.cache.unmark_dirty();
-                    return Ok(Some((S::ERASE_SIZE - (2 * S::WORD_SIZE)) as u32));
+                    return Ok(max_data_length::<S>());
                 }
             }
             PageState::Open => {
                 self.inner.cache.unmark_dirty();
-                return Ok(Some((S::ERASE_SIZE - (2 * S::WORD_SIZE)) as u32));
+                return Ok(max_data_length::<S>());
             }
             PageState::PartialOpen => {
                 // This should never happen
@@ -398,9 +404,10 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
         };
 
         self.inner.cache.unmark_dirty();
-        Ok(ItemHeader::available_data_bytes::<S>(
-            page_data_end_address - next_item_address,
-        ))
+        Ok(
+            ItemHeader::available_data_bytes::<S>(page_data_end_address - next_item_address)
+                .map(|available| available.min(u32::from(u16::MAX))),
+        )
     }
 
     /// Calculate how much space is left free in the queue (in bytes).
-- 
2.43.0


From e4e783cc13c464671c189027080c3ee7c685c5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:08 +0000
Subject: [PATCH 03/24] fix: single page queue could not be queried for its
 largest fit or reused after popping everything

---
 src/queue/mod.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/queue/mod.rs b/src/queue/mod.rs
index 15a1ba5..643ab53 100644
--- a/src/queue/mod.rs
+++ b/src/queue/mod.rs
@@ -236,10 +236,12 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
                         calculate_page_address::<S>(self.flash_range(), next_page)
                             + S::WORD_SIZE as u32;
 
+                    // Note: On a single page queue the page is still partial open.
+                    // By checking it like a closed page, its items are looked at.
                     if !allow_overwrite_old_data
                         && !self
                             .inner
-                            .is_page_empty(next_page, Some(next_page_state))
+                            .is_page_empty(next_page, Some(PageState::Closed))
                             .await?
                     {
                         self.inner.cache.unmark_dirty();
@@ -372,6 +374,17 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
                 self.inner.cache.unmark_dirty();
                 return Ok(max_data_length::<S>());
             }
+            PageState::PartialOpen if next_page == current_page => {
+                // There's only one page. It can be reused when everything on it has been popped
+                if self
+                    .inner
+                    .is_page_empty(next_page, Some(PageState::Closed))
+                    .await?
+                {
+                    self.inner.cache.unmark_dirty();
+                    return Ok(max_data_length::<S>());
+                }
+            }
             PageState::PartialOpen => {
                 // This should never happen
                 return Err(Error::Corrupted {
-- 
2.43.0


From e252c24252fc180510f13554051777ad22fbae1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:00 +0000
Subject: [PATCH 04/24] fix: erase_all left the old flash contents in the cache

---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 37fb23a..62e36b7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -55,6 +55,9 @@ impl<S: NorFlash, C: CacheImpl<KEY>, KEY> GenericStorage<S, C, KEY> {
     ///
     /// This is just a thin helper function as it just calls the flash's erase function.
     pub async fn erase_all(&mut self) -> Result<(), Error<S::Error>> {
+        // Nothing of what the cache knows is true anymore
+        self.cache.invalidate_cache_state();
+
         self.flash
             .erase(self.flash_range.start, self.flash_range.end)
             .await
-- 
2.43.0


From 6faba148580d2ef54951d877234276af66ed0a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:00 +0000
Subject: [PATCH 05/24] fix: removing map items trusted a cache left dirty by
 an earlier cancelled or failed operation

---
 src/map.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/map.rs b/src/map.rs
index 88a4bda..f7a1a19 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -630,6 +630,10 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
     where
         S: MultiwriteNorFlash,
     {
+        if self.inner.cache.is_dirty() {
+            self.inner.cache.invalidate_cache_state();
+        }
+
         if let Some(key) = &search_key {
             self.inner.cache.notice_key_erased(key);
         } else {
-- 
2.43.0


From 02b6c546c94eee79298e9eb64561cca7803f71ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:39 +0000
Subject: [PATCH 06/24] fix: fetch_all_items skipped the automatic repair and
 trusted a dirty cache

---
 src/map.rs | 91 +++++++++++++++++++++++++++---------------------------
 1 file changed, 46 insertions(+), 45 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index f7a1a19..d2b7c18 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -789,52 +789,8 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
         &mut self,
         data_buffer: &mut [u8],
     ) -> Result<MapItemIter<'_, K, S, C>, Error<S::Error>> {
-        // Get the first page index.
-        // The first page used by the map is the next page of the `PartialOpen` page or the last `Closed` page
         let first_page = run_with_auto_repair!(
-            function = {
-                match self
-                    .inner
-                    .find_first_page(0, PageState::PartialOpen)
-                    .await?
-                {
-                    Some(last_used_page) => {
-                        // The next page of the `PartialOpen` page is the first page
-                        Ok(self.inner.next_page(last_used_page))
-                    }
-                    None => {
-                        // In the event that all pages are still open or the last used page was just closed, we search for the first open page.
-                        // If the page one before that is closed, then that's the last used page.
-                        if let Some(first_open_page) =
-                            self.inner.find_first_page(0, PageState::Open).await?
-                        {
-                            let previous_page = self.inner.previous_page(first_open_page);
-                            if self
-                                .inner
-                                .get_page_state_cached(previous_page)
-                                .await?
-                                .is_closed()
-                            {
-                                // The previous page is closed, so the first_open_page is what we want
-                                Ok(first_open_page)
-                            } else {
-                                // The page before the open page is not closed, so it must be open.
-                                // This means that all pages are open and that we don't have any items yet.
-                                self.inner.cache.unmark_dirty();
-                                Ok(0)
-                            }
-                        } else {
-                            // There are no open pages, so everything must be closed.
-                            // Something is up and this should never happen.
-                            // To recover, we will just erase all the flash.
-                            Err(Error::Corrupted {
-                                #[cfg(feature = "_test")]
-                                backtrace: std::backtrace::Backtrace::capture(),
-                            })
-                        }
-                    }
-                }
-            },
+            function = self.find_oldest_page().await,
             repair = self.try_repair(data_buffer).await?
         )?;
 
@@ -852,6 +808,51 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
         })
     }
 
+    /// Find the page with the oldest items.
+    /// It's the next page of the `PartialOpen` page or of the last `Closed` page.
+    async fn find_oldest_page(&mut self) -> Result<usize, Error<S::Error>> {
+        if self.inner.cache.is_dirty() {
+            self.inner.cache.invalidate_cache_state();
+        }
+
+        if let Some(last_used_page) = self
+            .inner
+            .find_first_page(0, PageState::PartialOpen)
+            .await?
+        {
+            // The next page of the `PartialOpen` page is the first page
+            return Ok(self.inner.next_page(last_used_page));
+        }
+
+        // In the event that all pages are still open or the last used page was just closed, we search for the first open page.
+        // If the page one before that is closed, then that's the last used page.
+        let Some(first_open_page) = self.inner.find_first_page(0, PageState::Open).await? else {
+            // There are no open pages, so everything must be closed.
+            // Something is up and this should never happen.
+            // To recover, we will just erase all the flash.
+            return Err(Error::Corrupted {
+                #[cfg(feature = "_test")]
+                backtrace: std::backtrace::Backtrace::capture(),
+            });
+        };
+
+        let previous_page = self.inner.previous_page(first_open_page);
+        if self
+            .inner
+            .get_page_state_cached(previous_page)
+            .await?
+            .is_closed()
+        {
+            // The previous page is closed, so the first_open_page is what we want
+            Ok(first_open_page)
+        } else {
+            // The page before the open page is not closed, so it must be open.
+            // This means that all pages are open and that we don't have any items yet.
+            self.inner.cache.unmark_dirty();
+            Ok(0)
+        }
+    }
+
     async fn migrate_items(
         &mut self,
         data_buffer: &mut [u8],
-- 
2.43.0


From 5ce19c5657c757cceb2baf897058cc1f2c2ffd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:40 +0000
Subject: [PATCH 07/24] fix: map iterator swallowed flash errors and skipped
 the page, hiding its items

---
 src/map.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/map.rs b/src/map.rs
index d2b7c18..958ccf9 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -1114,7 +1114,9 @@ impl<K: Key, S: NorFlash, C: CacheImpl<K>> MapItemIter<'_, K, S, C> {
                         );
                         break;
                     }
-                    _ => continue,
+                    // An open or half-erased page has no items
+                    Ok(PageState::Open) | Err(Error::Corrupted { .. }) => continue,
+                    Err(e) => return Err(e),
                 }
             }
         };
-- 
2.43.0


From c6b4147e1592b5c7afac97dafdcc3656e120ac20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:52 +0000
Subject: [PATCH 08/24] fix: interrupted erase of a single page queue left old
 items that came back later

---
 src/queue/mod.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/queue/mod.rs b/src/queue/mod.rs
index 643ab53..a715de3 100644
--- a/src/queue/mod.rs
+++ b/src/queue/mod.rs
@@ -248,6 +248,10 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
                         return Err(Error::FullStorage);
                     }
 
+                    if single_page {
+                        // An interrupted erase can only be recognized on a closed page
+                        self.inner.close_page(current_page).await?;
+                    }
                     self.inner.open_page(next_page).await?;
                     if !single_page {
                         self.inner.close_page(current_page).await?;
@@ -568,6 +572,15 @@ impl<S: NorFlash, C: CacheImpl<()>> QueueStorage<S, C> {
         self.inner.cache.invalidate_cache_state();
 
         self.inner.try_general_repair().await?;
+
+        // A page without a next page is only ever closed right before it's erased by a push.
+        // So if that's what we find, the push got interrupted in between.
+        if self.inner.page_count().get() == 1
+            && self.inner.get_page_state_cached(0).await?.is_closed()
+        {
+            self.inner.open_page(0).await?;
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From af3cd074993d5b19deaf6090a10caa4ca3067859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:52 +0000
Subject: [PATCH 09/24] fix: repair skipped over pages it could not read
 instead of reporting the flash error

---
 src/lib.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 62e36b7..2997a01 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -81,11 +81,10 @@ impl<S: NorFlash, C: CacheImpl<KEY>, KEY> GenericStorage<S, C, KEY> {
         // Loop through the pages and get their state. If one returns the corrupted error,
         // the page is likely half-erased. Fix for that is to re-erase again to hopefully finish the job.
         for page_index in self.get_pages(0) {
-            if matches!(
-                self.get_page_state(page_index).await,
-                Err(Error::Corrupted { .. })
-            ) {
-                self.open_page(page_index).await?;
+            match self.get_page_state(page_index).await {
+                Ok(_) => {}
+                Err(Error::Corrupted { .. }) => self.open_page(page_index).await?,
+                Err(e) => return Err(e),
             }
         }
 
-- 
2.43.0


From a6c7bfbec7554992fe9308a032a4691a88bf3767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:13 +0000
Subject: [PATCH 10/24] fix: calculated page states broke when no open page is
 left to move on to

---
 src/cache/page_states.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/cache/page_states.rs b/src/cache/page_states.rs
index eb3eab1..9904273 100644
--- a/src/cache/page_states.rs
+++ b/src/cache/page_states.rs
@@ -158,12 +158,18 @@ impl SealedPageStatesCache for CalculatedPageStates {
                         // We've rediscovered ourselves and that's great
                     }
                     Some(PageState::PartialOpen) => {
-                        let anchor = self.anchor.as_mut().unwrap();
-                        // The anchor moves one up
-                        self.closed_pages += 1;
-                        self.open_pages -= 1;
-                        *anchor = (*anchor + 1) % self.page_count;
-                        self.anchor_is_partial = false;
+                        if self.open_pages > 1 {
+                            let anchor = self.anchor.as_mut().unwrap();
+                            // The anchor moves one up
+                            self.closed_pages += 1;
+                            self.open_pages -= 1;
+                            *anchor = (*anchor + 1) % self.page_count;
+                            self.anchor_is_partial = false;
+                        } else {
+                            // There's no known open page to move the anchor to.
+                            // That's the case when there's only one page.
+                            self.invalidate_cache_state();
+                        }
                     }
                     Some(PageState::Open) => {
                         unreachable!("We never outright close a fully open page")
-- 
2.43.0


From dbb8d1a763cba383488c852277028fb5dadf0fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:37 +0000
Subject: [PATCH 11/24] fix: removing map items in the middle of an interrupted
 migration was not atomic

---
 src/map.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/map.rs b/src/map.rs
index 958ccf9..de80c88 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -648,7 +648,25 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
             .find_first_page(0, PageState::PartialOpen)
             .await?
         {
-            Some(last_used_page) => last_used_page,
+            Some(last_used_page) => {
+                // If the buffer page is not open, a migration got interrupted and the items on the buffer page
+                // will be migrated again by the repair. That has to happen before we start erasing items.
+                // Otherwise, if we're interrupted too, an item that's gone from the buffer page but not yet from
+                // the partial open page would still be found until the repair drops it.
+                if !self
+                    .inner
+                    .get_page_state_cached(self.inner.next_page(last_used_page))
+                    .await?
+                    .is_open()
+                {
+                    return Err(Error::Corrupted {
+                        #[cfg(feature = "_test")]
+                        backtrace: std::backtrace::Backtrace::capture(),
+                    });
+                }
+
+                last_used_page
+            }
             None => {
                 // Oh dear, there's no active partial open page. Seems like some operation was cancelled or didn't make it through.
                 // Instead, we're gonna have to find what should be the partial open page, which is the first open page after the closed pages.
-- 
2.43.0


From 7be6d4958b8b87cb27cd49a453795de12a45be32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:52 +0000
Subject: [PATCH 12/24] fix: map iterator returned remnants of a page whose
 erase was interrupted

---
 src/map.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index de80c88..cf9f39d 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -812,10 +812,16 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
             repair = self.try_repair(data_buffer).await?
         )?;
 
-        let start_address =
-            calculate_page_address::<S>(self.flash_range(), first_page) + S::WORD_SIZE as u32;
         let end_address =
             calculate_page_end_address::<S>(self.flash_range(), first_page) - S::WORD_SIZE as u32;
+        let start_address = match self.inner.get_page_state_cached(first_page).await {
+            Ok(PageState::Closed | PageState::PartialOpen) => {
+                calculate_page_address::<S>(self.flash_range(), first_page) + S::WORD_SIZE as u32
+            }
+            // An open page has no items, but may contain remnants when erasing it was interrupted
+            Ok(PageState::Open) | Err(Error::Corrupted { .. }) => end_address,
+            Err(e) => return Err(e),
+        };
 
         Ok(MapItemIter {
             storage: self,
-- 
2.43.0


From f0575bca3ef509c039043fc3669f87191320a7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:28 +0000
Subject: [PATCH 13/24] fix: item written after a partially written header
 could be swallowed by it

---
 src/item.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/item.rs b/src/item.rs
index 373ed90..cbf29bd 100644
--- a/src/item.rs
+++ b/src/item.rs
@@ -634,9 +634,13 @@ impl ItemHeaderIter {
         flash: &mut S,
         callback: impl Fn(&ItemHeader, u32) -> bool,
     ) -> Result<(Option<ItemHeader>, u32), Error<S::Error>> {
+        // The address where the last item ended when there's a corrupted header after it
+        let mut corrupted_address: Option<u32> = None;
+
         loop {
             match ItemHeader::read_new(flash, self.current_address, self.end_address).await {
                 Ok(Some(header)) => {
+                    corrupted_address = None;
                     let next_address = header.next_item_address::<S>(self.current_address);
                     if callback(&header, self.current_address) {
                         self.current_address = next_address;
@@ -647,9 +651,19 @@ impl ItemHeaderIter {
                     }
                 }
                 Ok(None) => {
-                    return Ok((None, self.current_address));
+                    // What's written next may not end up in the unwritten part of a header that was only partially
+                    // written. Otherwise there's a chance that completes it to a header with a valid length.
+                    let address = match corrupted_address {
+                        Some(start) => (start
+                            + (self.current_address - start)
+                                .next_multiple_of(ItemHeader::data_address::<S>(0)))
+                        .min(self.end_address),
+                        None => self.current_address,
+                    };
+                    return Ok((None, address));
                 }
                 Err(Error::Corrupted { .. }) => {
+                    corrupted_address = corrupted_address.or(Some(self.current_address));
                     self.current_address += S::WORD_SIZE as u32;
                 }
                 Err(e) => return Err(e),
-- 
2.43.0


From 2237efd543690584e2a4ea24d370b5f24fd31b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:17 +0000
Subject: [PATCH 14/24] fix: page with remnants of an erase interrupted during
 repair was taken into use

---
 src/map.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index cf9f39d..6963206 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -438,6 +438,7 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
         }
 
         let mut recursion_level = 0;
+        let mut buffer_page_checked = false;
         loop {
             // Check if we're in an infinite recursion which happens when we don't have enough space to store the new data
             if recursion_level == self.inner.get_pages(0).count() {
@@ -452,11 +453,12 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
                 .await?
             {
                 // We found a partial open page, but at this point it's relatively cheap to do a consistency check
-                if !self
-                    .inner
-                    .get_page_state_cached(self.inner.next_page(partial_open_page))
-                    .await?
-                    .is_open()
+                if !core::mem::take(&mut buffer_page_checked)
+                    && !self
+                        .inner
+                        .get_page_state_cached(self.inner.next_page(partial_open_page))
+                        .await?
+                        .is_open()
                 {
                     // Oh oh, the next page which serves as the buffer page is not open. We're corrupt.
                     // This likely happened because of an unexpected shutdown during data migration from the
@@ -567,6 +569,16 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
                     });
                 };
 
+                let next_page = self.inner.next_page(first_open_page);
+                if !self.inner.get_page_state_cached(next_page).await?.is_open() {
+                    // There's no buffer page, so we got interrupted while migrating. If that was in the repair,
+                    // then this page may only look open because its erase didn't finish.
+                    // None of what's left on the page may come back, so erase it again.
+                    self.inner.open_page(first_open_page).await?;
+                } else {
+                    buffer_page_checked = true;
+                }
+
                 self.inner.partial_close_page(first_open_page).await?;
             }
 
-- 
2.43.0


From 0d8dd68b70c2bc7f23d6cc2e8a6c4ef4743ba934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:33 +0000
Subject: [PATCH 15/24] fix: page with nothing but corrupted items left could
 not be used again without overwriting

---
 src/item.rs | 77 ++++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 67 insertions(+), 10 deletions(-)

diff --git a/src/item.rs b/src/item.rs
index cbf29bd..82c6a05 100644
--- a/src/item.rs
+++ b/src/item.rs
@@ -120,6 +120,48 @@ impl ItemHeader {
         Ok(Some(header))
     }
 
+    /// Check whether the data of a (non-erased) item at the given address still matches the crc in the header
+    async fn is_data_intact<S: NorFlash>(
+        &self,
+        flash: &mut S,
+        address: u32,
+    ) -> Result<bool, Error<S::Error>> {
+        let data_address = ItemHeader::data_address::<S>(address);
+        let mut buffer = AlignedBuf([0; MAX_WORD_SIZE]);
+
+        // Like with reading the item, the data is only corrupt if it is so twice
+        for _ in 0..2 {
+            let mut crc = CRC32_INITIAL;
+            let mut offset = 0;
+
+            while offset < u32::from(self.length) {
+                let chunk_len = (usize::from(self.length) - offset as usize)
+                    .min(MAX_WORD_SIZE / S::WORD_SIZE * S::WORD_SIZE);
+
+                flash
+                    .read(
+                        data_address + offset,
+                        &mut buffer[..round_up_to_alignment_usize::<S>(chunk_len)],
+                    )
+                    .await
+                    .map_err(|e| Error::Storage {
+                        value: e,
+                        #[cfg(feature = "_test")]
+                        backtrace: std::backtrace::Backtrace::capture(),
+                    })?;
+
+                crc = !crc32_with_initial(&buffer[..chunk_len], crc);
+                offset += chunk_len as u32;
+            }
+
+            if Some(adapt_crc32(!crc)) == self.crc {
+                return Ok(true);
+            }
+        }
+
+        Ok(false)
+    }
+
     pub(crate) async fn read_item<'d, S: NorFlash>(
         self,
         flash: &mut S,
@@ -448,7 +490,11 @@ fn crc16(data: &[u8]) -> u16 {
 
 /// Calculate the crc32 of the data as used by the crate.
 fn adapted_crc32(data: &[u8]) -> NonZeroU32 {
-    match crc32(data) {
+    adapt_crc32(crc32(data))
+}
+
+fn adapt_crc32(crc: u32) -> NonZeroU32 {
+    match crc {
         // CRC may not be 0 as that already means 'erased'
         0 => NonZeroU32::new(1).unwrap(),
         // To aid in early shutoff/cancellation, we make sure that if the first byte of
@@ -461,10 +507,12 @@ fn adapted_crc32(data: &[u8]) -> NonZeroU32 {
     }
 }
 
+// We use a modified initial value because the normal 0xFFFFFFF does not pass
+// the `crc32_all_ones_resistant` test
+const CRC32_INITIAL: u32 = 0xEEEE_EEEE;
+
 fn crc32(data: &[u8]) -> u32 {
-    // We use a modified initial value because the normal 0xFFFFFFF does not pass
-    // the `crc32_all_ones_resistant` test
-    crc32_with_initial(data, 0xEEEE_EEEE)
+    crc32_with_initial(data, CRC32_INITIAL)
 }
 
 fn crc32_with_initial(data: &[u8], initial: u32) -> u32 {
@@ -552,16 +600,25 @@ impl<S: NorFlash, C: CacheImpl<KEY>, KEY> GenericStorage<S, C, KEY> {
                     calculate_page_end_address::<S>(self.flash_range.clone(), page_index)
                         - S::WORD_SIZE as u32;
 
-                Ok(ItemHeaderIter::new(
+                let mut it = ItemHeaderIter::new(
                     self.cache
                         .first_item_after_erased(page_index)
                         .unwrap_or(page_data_start_address),
                     page_data_end_address,
-                )
-                .traverse(&mut self.flash, |header, _| header.crc.is_none())
-                .await?
-                .0
-                .is_none())
+                );
+
+                while let (Some(header), address) = it
+                    .traverse(&mut self.flash, |header, _| header.crc.is_none())
+                    .await?
+                {
+                    // Corrupted items (e.g. because the write got interrupted) can never be read or erased.
+                    // So they must not keep the page from being used again.
+                    if header.is_data_intact(&mut self.flash, address).await? {
+                        return Ok(false);
+                    }
+                }
+
+                Ok(true)
             }
             PageState::PartialOpen => Ok(false),
             PageState::Open => Ok(true),
-- 
2.43.0


From 2a5d662b62b683810bec15e62e4b7e0809fd5554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:19 +0000
Subject: [PATCH 16/24] fix: cached location of a corrupted map item could
 return the item of another key

---
 src/map.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index 6963206..a3c1934 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -199,10 +199,6 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
         };
 
         let data_len = item.header.length as usize;
-        let item_key_len = match item_key_len {
-            Some(item_key_len) => item_key_len,
-            None => K::get_len(&data_buffer[..data_len])?,
-        };
 
         let (value, _size) =
             V::deserialize_from(&data_buffer[item_key_len..][..data_len - item_key_len])
@@ -216,7 +212,7 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
         &mut self,
         data_buffer: &mut [u8],
         search_key: &K,
-    ) -> Result<Option<(ItemUnborrowed, u32, Option<usize>)>, Error<S::Error>> {
+    ) -> Result<Option<(ItemUnborrowed, u32, usize)>, Error<S::Error>> {
         if self.inner.cache.is_dirty() {
             self.inner.cache.invalidate_cache_state();
         }
@@ -271,7 +267,17 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
                         break 'cache;
                     }
                     item::MaybeItem::Present(item) => {
-                        return Ok(Some((item.unborrow(), cached_location, None)));
+                        // If the item we cached got corrupted, its page may have been reused since.
+                        // Then there's an item of another key here now.
+                        match K::deserialize_from(item.data()) {
+                            Ok((found_key, found_key_len)) if found_key == *search_key => {
+                                return Ok(Some((item.unborrow(), cached_location, found_key_len)));
+                            }
+                            _ => {
+                                self.inner.cache.invalidate_cache_state();
+                                break 'cache;
+                            }
+                        }
                     }
                 }
             }
@@ -382,7 +388,7 @@ impl<S: NorFlash, C: CacheImpl<K>, K: Key> MapStorage<K, S, C> {
             Ok(Some((
                 item.unwrap()?.unborrow(),
                 newest_found_item_address,
-                Some(newest_found_item_key_len),
+                newest_found_item_key_len,
             )))
         } else {
             Ok(None)
-- 
2.43.0


From 6f0cf494f2d8c363ff039830774535f822c219aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:15 +0000
Subject: [PATCH 17/24] fix: reading an item exposed stale buffer contents
 after it, which could panic when deserializing

---
 src/item.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/item.rs b/src/item.rs
index 82c6a05..3ecbabd 100644
--- a/src/item.rs
+++ b/src/item.rs
@@ -198,9 +198,10 @@ impl ItemHeader {
                     let data_crc = adapted_crc32(data);
 
                     break if data_crc == header_crc {
+                        let length = self.length as usize;
                         Ok(MaybeItem::Present(Item {
                             header: self,
-                            item_data_buffer: data_buffer,
+                            item_data_buffer: &mut data_buffer[..length],
                         }))
                     } else {
                         if !retry {
-- 
2.43.0


From b6322e5bc744b90e4f723a3484a8065d5101c012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:03 +0000
Subject: [PATCH 18/24] fix: read glitch in blank flash that looks like an
 oversized item was not retried

---
 src/item.rs | 41 +++++++++++++++++------------------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/src/item.rs b/src/item.rs
index 3ecbabd..32fab1a 100644
--- a/src/item.rs
+++ b/src/item.rs
@@ -82,7 +82,22 @@ impl ItemHeader {
             let length_crc = u16::from_le_bytes(buffer[Self::LENGTH_CRC_FIELD].try_into().unwrap());
             let calculated_length_crc = crc16(&buffer[Self::LENGTH_FIELD]);
 
-            if calculated_length_crc != length_crc {
+            let header = Self {
+                length: u16::from_le_bytes(buffer[Self::LENGTH_FIELD].try_into().unwrap()),
+                crc: {
+                    match u32::from_le_bytes(buffer[Self::DATA_CRC_FIELD].try_into().unwrap()) {
+                        0 => None,
+                        value => Some(NonZeroU32::new(value).unwrap()),
+                    }
+                },
+            };
+
+            // If the crc is right, but the header claims it's larger than is possible, then it's corrupt as well.
+            // This is never written. So either it's a bug or there's a CRC collision
+            // Let's assume the latter
+            if calculated_length_crc != length_crc
+                || header.next_item_address::<S>(address) > end_address
+            {
                 if retry {
                     return Err(Error::Corrupted {
                         #[cfg(feature = "_test")]
@@ -94,30 +109,8 @@ impl ItemHeader {
                 continue;
             }
 
-            break;
-        }
-
-        let header = Self {
-            length: u16::from_le_bytes(buffer[Self::LENGTH_FIELD].try_into().unwrap()),
-            crc: {
-                match u32::from_le_bytes(buffer[Self::DATA_CRC_FIELD].try_into().unwrap()) {
-                    0 => None,
-                    value => Some(NonZeroU32::new(value).unwrap()),
-                }
-            },
-        };
-
-        if header.next_item_address::<S>(address) > end_address {
-            // We have a header here that's claims it's larger than is possible
-            // This is never written. So either it's a bug or there's a CRC collision
-            // Let's assume the latter
-            return Err(Error::Corrupted {
-                #[cfg(feature = "_test")]
-                backtrace: std::backtrace::Backtrace::capture(),
-            });
+            return Ok(Some(header));
         }
-
-        Ok(Some(header))
     }
 
     /// Check whether the data of a (non-erased) item at the given address still matches the crc in the header
-- 
2.43.0


From 4bcc86f9065ac8ec963ac00b2ab7fc851b68af12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:52 +0000
Subject: [PATCH 19/24] fix: buffered queue took a buffer too small for the
 oldest RAM item for an empty queue

---
 src/queue/buffered.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/queue/buffered.rs b/src/queue/buffered.rs
index d203068..9f8bbdf 100644
--- a/src/queue/buffered.rs
+++ b/src/queue/buffered.rs
@@ -140,6 +140,15 @@ impl<const N: usize> RamRing<N> {
         Some(&buf[..len])
     }
 
+    /// Same as [`peek_into`][Self::peek_into], but reports a `buf` that is too small instead of
+    /// making the ring look empty.
+    fn try_peek_into<'b, E>(&self, buf: &'b mut [u8]) -> Result<Option<&'b [u8]>, Error<E>> {
+        match self.oldest_len() {
+            Some(len) if buf.len() < len => Err(Error::BufferTooSmall(len)),
+            _ => Ok(self.peek_into(buf)),
+        }
+    }
+
     /// Discard the oldest item without copying it. Does nothing if the ring is empty.
     pub fn discard_oldest(&mut self) {
         if let Some(len) = self.oldest_len() {
@@ -250,7 +259,7 @@ impl<S: NorFlash, C: CacheImpl<()>, const RAM_BYTES: usize> BufferedQueue<S, C,
         scratch: &mut [u8],
         allow_overwrite: bool,
     ) -> Result<bool, Error<S::Error>> {
-        let Some(data) = self.ram.peek_into(scratch) else {
+        let Some(data) = self.ram.try_peek_into(scratch)? else {
             return Ok(false);
         };
         let len = data.len();
@@ -287,7 +296,7 @@ impl<S: NorFlash, C: CacheImpl<()>, const RAM_BYTES: usize> BufferedQueue<S, C,
         if let Some(len) = flash_len {
             return Ok(Some(&mut data_buffer[..len]));
         }
-        let len = self.ram.peek_into(data_buffer).map(|s| s.len());
+        let len = self.ram.try_peek_into(data_buffer)?.map(|s| s.len());
         if let Some(len) = len {
             self.ram.discard_oldest();
             return Ok(Some(&mut data_buffer[..len]));
@@ -311,7 +320,7 @@ impl<S: NorFlash, C: CacheImpl<()>, const RAM_BYTES: usize> BufferedQueue<S, C,
         if let Some(len) = flash_len {
             return Ok(Some(&mut data_buffer[..len]));
         }
-        let len = self.ram.peek_into(data_buffer).map(|s| s.len());
+        let len = self.ram.try_peek_into(data_buffer)?.map(|s| s.len());
         if let Some(len) = len {
             return Ok(Some(&mut data_buffer[..len]));
         }
@@ -440,9 +449,11 @@ impl<const N: usize> SharedRamRing<N> {
         scratch: &mut [u8],
         allow_overwrite: bool,
     ) -> Result<bool, Error<S::Error>> {
-        let len = self
-            .ring
-            .lock(|r| r.borrow().peek_into(scratch).map(|s| s.len()));
+        let len = self.ring.lock(|r| {
+            r.borrow()
+                .try_peek_into(scratch)
+                .map(|s| s.map(<[u8]>::len))
+        })?;
         let Some(len) = len else {
             return Ok(false);
         };
-- 
2.43.0


From 35b2d44e0d12a2c0d4dd88edf3c4814c3eec4c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:15 +0000
Subject: [PATCH 20/24] fix: draining the shared RAM ring discarded an
 unwritten item if the written one got evicted meanwhile

---
 src/queue/buffered.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/queue/buffered.rs b/src/queue/buffered.rs
index 9f8bbdf..e9e7759 100644
--- a/src/queue/buffered.rs
+++ b/src/queue/buffered.rs
@@ -47,6 +47,8 @@ struct RamRing<const N: usize> {
     /// Total bytes occupied (length prefixes + data).
     used: usize,
     item_count: usize,
+    /// How many items have been discarded so far (wrapping), which identifies the oldest item.
+    discard_count: usize,
 }
 
 impl<const N: usize> RamRing<N> {
@@ -58,6 +60,7 @@ impl<const N: usize> RamRing<N> {
             write_pos: 0,
             used: 0,
             item_count: 0,
+            discard_count: 0,
         }
     }
 
@@ -155,6 +158,7 @@ impl<const N: usize> RamRing<N> {
             self.read_pos = (self.read_pos + 2 + len) % N;
             self.used -= 2 + len;
             self.item_count -= 1;
+            self.discard_count = self.discard_count.wrapping_add(1);
         }
     }
 
@@ -449,16 +453,23 @@ impl<const N: usize> SharedRamRing<N> {
         scratch: &mut [u8],
         allow_overwrite: bool,
     ) -> Result<bool, Error<S::Error>> {
-        let len = self.ring.lock(|r| {
-            r.borrow()
-                .try_peek_into(scratch)
-                .map(|s| s.map(<[u8]>::len))
+        let (len, discard_count) = self.ring.lock(|r| {
+            let ring = r.borrow();
+            let len = ring.try_peek_into(scratch)?.map(<[u8]>::len);
+            Ok::<_, Error<S::Error>>((len, ring.discard_count))
         })?;
         let Some(len) = len else {
             return Ok(false);
         };
         storage.push(&scratch[..len], allow_overwrite).await?;
-        self.ring.lock(|r| r.borrow_mut().discard_oldest());
+        self.ring.lock(|r| {
+            let mut ring = r.borrow_mut();
+            // The item may have been evicted by an enqueue during the push. The oldest item is a
+            // different one then, that has not been written yet.
+            if ring.discard_count == discard_count {
+                ring.discard_oldest();
+            }
+        });
         Ok(true)
     }
 
-- 
2.43.0


From b3a1bb4eb5174a14d32a32200cfc0680720f7adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:12 +0000
Subject: [PATCH 21/24] fix: heapless string keys reported a buffer that is too
 small as an invalid format

---
 src/heapless_09_impl.rs | 2 +-
 src/heapless_impl.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/heapless_09_impl.rs b/src/heapless_09_impl.rs
index 43d11d6..49490ec 100644
--- a/src/heapless_09_impl.rs
+++ b/src/heapless_09_impl.rs
@@ -77,7 +77,7 @@ impl<LenType: heapless_09::LenType, const CAP: usize> Key for String<CAP, LenTyp
         }
 
         if buffer.len() < self.len() + 2 {
-            return Err(SerializationError::InvalidFormat);
+            return Err(SerializationError::BufferTooSmall);
         }
 
         buffer[..2].copy_from_slice(&(self.len() as u16).to_le_bytes());
diff --git a/src/heapless_impl.rs b/src/heapless_impl.rs
index d22d487..b5dcc4b 100644
--- a/src/heapless_impl.rs
+++ b/src/heapless_impl.rs
@@ -78,7 +78,7 @@ impl<const CAP: usize> Key for String<CAP> {
         }
 
         if buffer.len() < self.len() + 2 {
-            return Err(SerializationError::InvalidFormat);
+            return Err(SerializationError::BufferTooSmall);
         }
 
         buffer[..2].copy_from_slice(&(self.len() as u16).to_le_bytes());
-- 
2.43.0


From f97d624c961fb49bf0a7a4f15ed0ebcf80e0c0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:34 +0000
Subject: [PATCH 22/24] fix: fallible config constructors panicked on a
 reversed range or overflowing minimum size

---
 src/map.rs       | 4 +++-
 src/queue/mod.rs | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index a3c1934..08a0902 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -45,7 +45,9 @@ impl<S: NorFlash> MapConfig<S> {
             return Err(MapConfigError::EndRangeNotAtPageBoundary);
         }
         // At least 2 pages are used
-        if flash_range.end - flash_range.start < S::ERASE_SIZE as u32 * 2 {
+        if flash_range.end.saturating_sub(flash_range.start)
+            < (S::ERASE_SIZE as u32).saturating_mul(2)
+        {
             return Err(MapConfigError::RangeTooSmall);
         }
 
diff --git a/src/queue/mod.rs b/src/queue/mod.rs
index a715de3..5eb0806 100644
--- a/src/queue/mod.rs
+++ b/src/queue/mod.rs
@@ -39,7 +39,7 @@ impl<S: NorFlash> QueueConfig<S> {
             return Err(QueueConfigError::EndRangeNotAtPageBoundary);
         }
         // At least 1 page is used
-        if flash_range.end - flash_range.start < (S::ERASE_SIZE as u32) {
+        if flash_range.end.saturating_sub(flash_range.start) < (S::ERASE_SIZE as u32) {
             return Err(QueueConfigError::RangeTooSmall);
         }
 
-- 
2.43.0


From dd409dc74ae14fd5476b2dac3f1f68d79e9db3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:05 +0000
Subject: [PATCH 23/24] fix: address calculation could overflow for a range at
 the end of the address space

---
 src/item.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/item.rs b/src/item.rs
index 32fab1a..0dcd2de 100644
--- a/src/item.rs
+++ b/src/item.rs
@@ -59,7 +59,7 @@ impl ItemHeader {
         let mut buffer = [0; MAX_WORD_SIZE];
         let header_slice_len = round_up_to_alignment_usize::<S>(Self::LENGTH);
 
-        if address + header_slice_len as u32 > end_address {
+        if address.saturating_add(header_slice_len as u32) > end_address {
             return Ok(None);
         }
 
@@ -246,13 +246,13 @@ impl ItemHeader {
 
     /// Get the address of the start of the data for this item
     pub(crate) const fn data_address<S: NorFlash>(address: u32) -> u32 {
-        address + round_up_to_alignment::<S>(Self::LENGTH as u32)
+        address.saturating_add(round_up_to_alignment::<S>(Self::LENGTH as u32))
     }
 
     /// Get the location of the next item in flash
     pub(crate) const fn next_item_address<S: NorFlash>(&self, address: u32) -> u32 {
         let data_address = ItemHeader::data_address::<S>(address);
-        data_address + round_up_to_alignment::<S>(self.length as u32)
+        data_address.saturating_add(round_up_to_alignment::<S>(self.length as u32))
     }
 
     /// Calculates the amount of bytes available for data.
-- 
2.43.0


From 6fd87cd1937cd0ad17356ffbb58e5ffb1519230f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:57 +0000
Subject: [PATCH 24/24] fix: map iterator skipped items when continued after an
 error or a refused buffer

---
 src/item.rs | 12 ++++++++----
 src/map.rs  | 18 ++++++++++++------
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/item.rs b/src/item.rs
index 0dcd2de..9349708 100644
--- a/src/item.rs
+++ b/src/item.rs
@@ -637,12 +637,16 @@ impl ItemIter {
         data_buffer: &'d mut [u8],
     ) -> Result<Option<(Item<'d>, u32)>, Error<S::Error>> {
         let mut data_buffer = Some(data_buffer);
-        while let (Some(header), address) = self.header.next(flash).await? {
+        // Only step over an item once it has been read, so nothing is skipped when this is retried after an error
+        let mut header_iter =
+            ItemHeaderIter::new(self.header.current_address, self.header.end_address);
+        while let (Some(header), address) = header_iter.next(flash).await? {
             let buffer = data_buffer.take().unwrap();
-            match header
+            let item = header
                 .read_item(flash, buffer, address, self.header.end_address)
-                .await?
-            {
+                .await?;
+            self.header.current_address = header_iter.current_address;
+            match item {
                 MaybeItem::Corrupted(_, buffer) | MaybeItem::Erased(_, buffer) => {
                     data_buffer.replace(buffer);
                 }
diff --git a/src/map.rs b/src/map.rs
index 08a0902..97456bf 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -1132,19 +1132,25 @@ impl<K: Key, S: NorFlash, C: CacheImpl<K>> MapItemIter<'_, K, S, C> {
             // The current page is done, we need to find the next page
             // Find next page which is not open, update `self.current_iter`
             loop {
-                self.current_page_index = self.storage.inner.next_page(self.current_page_index);
+                let next_page_index = self.storage.inner.next_page(self.current_page_index);
 
                 // We've looped back to the first page, which means all pages are checked, there's nothing left so we return None
-                if self.current_page_index == self.first_page {
+                if next_page_index == self.first_page {
                     return Ok(None);
                 }
 
-                match self
+                let page_state = self
                     .storage
                     .inner
-                    .get_page_state_cached(self.current_page_index)
-                    .await
-                {
+                    .get_page_state_cached(next_page_index)
+                    .await;
+
+                // Stay on the page when its state can't be read, so it's not skipped when this is retried
+                if !matches!(page_state, Err(Error::Storage { .. })) {
+                    self.current_page_index = next_page_index;
+                }
+
+                match page_state {
                     Ok(PageState::Closed | PageState::PartialOpen) => {
                         self.current_iter = ItemIter::new(
                             calculate_page_address::<S>(
-- 
2.43.0

