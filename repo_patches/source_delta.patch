From b5229b22153d76bef57f5c3585131ec04e249a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:35 +0000
Subject: [PATCH 01/56] fix: prefix decrement of a quantity incremented it

---
 esl/quantity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/quantity.hpp b/esl/quantity.hpp
index 6db2e96..b293e1b 100644
--- a/esl/quantity.hpp
+++ b/esl/quantity.hpp
@@ -322,7 +322,7 @@ namespace esl {
 
         quantity& operator -- ()
         {
-            ++amount;
+            --amount;
             return *this;
         }
 
-- 
2.43.0


From aa8de74aaeb61b7b87866de063d478ad6a5616e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:35 +0000
Subject: [PATCH 02/56] fix: comparing quotes with >= ignored different lot
 sizes

---
 esl/economics/markets/quote.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esl/economics/markets/quote.hpp b/esl/economics/markets/quote.hpp
index b260df6..408244e 100644
--- a/esl/economics/markets/quote.hpp
+++ b/esl/economics/markets/quote.hpp
@@ -232,6 +232,8 @@ namespace esl::economics::markets {
         {
             assert_equal_type_(other);
 
+            assert_equal_lot_(other);
+
             return std::visit([&] (const auto& k) {
                 using variant_ = std::decay_t<decltype(k)>;
                 //return (lot * k) >= (std::get<variant_>(other.type) * other.lot );
-- 
2.43.0


From 6aa0cdd725f5dca8a1d8e63d8ba581530edc6bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:35 +0000
Subject: [PATCH 03/56] fix: converting a negative price used unsigned
 arithmetic

---
 esl/economics/exchange_rate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/exchange_rate.hpp b/esl/economics/exchange_rate.hpp
index 45fadca..8bb7c79 100644
--- a/esl/economics/exchange_rate.hpp
+++ b/esl/economics/exchange_rate.hpp
@@ -141,7 +141,7 @@ namespace esl::economics {
         /// \return
         constexpr price operator * (const price &p) const
         {
-            return price(static_cast<int64_t>((p.value * numerator()) / denominator()), p.valuation);
+            return price((p.value * static_cast<int64_t>(numerator())) / static_cast<int64_t>(denominator()), p.valuation);
         }
 
 
-- 
2.43.0


From 4fc76cf8e21c619874426444d7f3905b7346fcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:47 +0000
Subject: [PATCH 04/56] fix: allocating fractions truncated them, and overran
 when rounding exceeded the sum

---
 esl/algorithms.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/esl/algorithms.hpp b/esl/algorithms.hpp
index f031d91..4b03e51 100644
--- a/esl/algorithms.hpp
+++ b/esl/algorithms.hpp
@@ -207,7 +207,7 @@ namespace esl {
         for(const auto &f : fractions) {
             sum_ += f;
             near_ += round(f);
-            result_.push_back(round(abs(f)));
+            result_.push_back(round(std::abs(f)));
         }
 
         int target_ = round(sum_);
@@ -220,14 +220,19 @@ namespace esl {
         sort(indices_.begin(),
              indices_.end(),
              [&fractions](size_t i1, size_t i2) {
-                 return (fractions[i1] - std::nearbyint(fractions[i1]))
-                        > (fractions[i2] - std::nearbyint(fractions[i2]));
+                 return (fractions[i1] - std::round(fractions[i1]))
+                        > (fractions[i2] - std::round(fractions[i2]));
              });
 
-        for(size_t i = 0; i < (target_ - near_); ++i) {
+        for(size_t i = 0; near_ < target_; ++i, ++near_) {
             ++result_[indices_[i]];
         }
 
+        // rounding went over the target: take from those rounded up the most
+        for(size_t i = indices_.size(); near_ > target_; --near_) {
+            --result_[indices_[--i]];
+        }
+
         return result_;
     }
 
-- 
2.43.0


From e007608768e2f76e545eaa82c43c3ac57fc6951e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:00 +0000
Subject: [PATCH 05/56] fix: an ISIN made from its 11 symbols repeated the
 country and lost the end of the code

---
 esl/economics/finance/isin.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/finance/isin.hpp b/esl/economics/finance/isin.hpp
index 003f584..413f8cb 100644
--- a/esl/economics/finance/isin.hpp
+++ b/esl/economics/finance/isin.hpp
@@ -71,7 +71,7 @@ namespace esl::economics::finance {
                   //: throw esl::exception("ISO 3166-1 alpha-2 country code needs to be two characters")
 
                 )
-        , code(esl::array_slice<0, 9>(code))
+        , code(esl::array_slice<2, 11>(code))
         {
 
         }
-- 
2.43.0


From ccc9f8623a4c145f20599593669754361280a079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:49 +0000
Subject: [PATCH 06/56] fix: a block pool did not know which of its elements
 were alive

---
 esl/computation/block_pool.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/esl/computation/block_pool.hpp b/esl/computation/block_pool.hpp
index f792404..20b1c64 100644
--- a/esl/computation/block_pool.hpp
+++ b/esl/computation/block_pool.hpp
@@ -28,6 +28,7 @@
 #define ESL_BLOCK_POOL_HPP
 
 #include <cstdint>
+#include <limits>
 #include <utility>
 #include <stdexcept>
 #include <vector>
@@ -60,7 +61,7 @@ namespace esl::computation::block_pool {
         ///
         /// \brief  The index associated with this block
         ///
-        index_t index = 0;
+        index_t index = std::numeric_limits<index_t>::max();
 
         ///
         /// \brief  A pointer to the next free block
@@ -245,6 +246,7 @@ namespace esl::computation::block_pool {
                 
             }
             highest_ = std::max(highest_, assigned_ + 1);
+            i->index = assigned_;
 
             return {assigned_, i};
         }
@@ -261,7 +263,8 @@ namespace esl::computation::block_pool {
         {
             block<element_t_> *removed_ = &blocks[i % capacity()];
             
-            if(removed_->index != i) {
+            if(removed_->index != i
+               || std::numeric_limits<typename block<element_t_>::index_t>::max() == i) {
                 return 0;
                 //throw esl::exception("trying to delete stale order");
             }
@@ -283,6 +286,9 @@ namespace esl::computation::block_pool {
             removed_->next = end_;
             end_           = removed_;
 
+            // a block that holds no element has no valid index
+            removed_->index = std::numeric_limits<typename block<element_t_>::index_t>::max();
+
             if(size_ == 0){
 #if DEBUG
                 throw std::exception("trying to erase non-existing element");
-- 
2.43.0


From 7106283a4f148e725bafd495e496c852b209c12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:16 +0000
Subject: [PATCH 07/56] fix: reading an element of a constant block pool never
 ended

---
 esl/computation/block_pool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/computation/block_pool.hpp b/esl/computation/block_pool.hpp
index 20b1c64..af4f99f 100644
--- a/esl/computation/block_pool.hpp
+++ b/esl/computation/block_pool.hpp
@@ -315,7 +315,7 @@ namespace esl::computation::block_pool {
         /// 
         constexpr const_reference operator [] (index i) const
         {
-            return this->operator[](i);
+            return blocks[i % capacity()].data;
         }
 
         constexpr reference at(index i)
-- 
2.43.0


From d68d534003d5bc163211f27ae8aeb7d5627ad5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 08/56] fix: the binary tree order book kept listing orders
 after they were cancelled

---
 esl/economics/markets/order_book/binary_tree_order_book.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esl/economics/markets/order_book/binary_tree_order_book.hpp b/esl/economics/markets/order_book/binary_tree_order_book.hpp
index b85441a..38c2046 100644
--- a/esl/economics/markets/order_book/binary_tree_order_book.hpp
+++ b/esl/economics/markets/order_book/binary_tree_order_book.hpp
@@ -291,6 +291,8 @@ namespace esl::economics::markets::order_book {
                         }
                     }
                 }
+
+                limit_orders_.erase(o);
             }
         }
 
-- 
2.43.0


From a073218bb6cd3e6655c7015334647a86081dabbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 09/56] fix: the binary tree order book ignored the lifetime of
 orders

---
 .../order_book/binary_tree_order_book.hpp     | 49 ++++++++++++++++++-
 1 file changed, 47 insertions(+), 2 deletions(-)

diff --git a/esl/economics/markets/order_book/binary_tree_order_book.hpp b/esl/economics/markets/order_book/binary_tree_order_book.hpp
index 38c2046..0e7f428 100644
--- a/esl/economics/markets/order_book/binary_tree_order_book.hpp
+++ b/esl/economics/markets/order_book/binary_tree_order_book.hpp
@@ -57,6 +57,40 @@ namespace esl::economics::markets::order_book {
 
 
         std::map<basic_book::order_identifier, quote> limit_orders_;
+
+        ///
+        /// \brief  Whether the resting orders in `side` can execute the order
+        ///         entirely, used for fill-or-kill orders
+        ///
+        template<typename orders_t_>
+        [[nodiscard]] static bool fills(const limit_order &order, const orders_t_ &side)
+        {
+            std::uint64_t available_ = 0;
+            for(const auto &[limit_, resting_]: side) {
+                if(order.side == limit_order::buy ? order.limit < limit_ : order.limit > limit_) {
+                    break;
+                }
+                available_ += resting_.second.quantity;
+            }
+            return order.quantity <= available_;
+        }
+
+        ///
+        /// \brief  Reports that (the remainder of) an order that may not rest
+        ///         in the book is cancelled
+        ///
+        void kill(const limit_order &order, std::uint32_t quantity)
+        {
+            reports.emplace_back(execution_report
+                { execution_report::cancel
+                , order.side
+                , quantity
+                , direct_order
+                , order.limit
+                , order.owner
+                });
+        }
+
     public:
         binary_tree_order_book()
         : next_(0)
@@ -110,6 +144,13 @@ namespace esl::economics::markets::order_book {
         /// \param order
         void insert(const limit_order &order) override
         {
+            if(limit_order::lifetime_t::fill_or_kill == order.lifetime
+               && !(limit_order::side_t::buy == order.side
+                    ? fills(order, orders_ask) : fills(order, orders_bid))) {
+                kill(order, order.quantity);
+                return;
+            }
+
             if(limit_order::side_t::buy == order.side){
                 auto remainder_ = order.quantity;
 
@@ -160,7 +201,9 @@ namespace esl::economics::markets::order_book {
                     orders_ask.erase(it);
                 }
 
-                if(remainder_ > 0) {
+                if(remainder_ > 0 && limit_order::lifetime_t::immediate_or_cancel == order.lifetime) {
+                    kill(order, remainder_);
+                }else if(remainder_ > 0) {
                     // place remainder
                     limit_order placed_ = order;
                     placed_.quantity    = remainder_;
@@ -226,7 +269,9 @@ namespace esl::economics::markets::order_book {
                     orders_bid.erase(it);
                 }
 
-                if(remainder_ > 0) {
+                if(remainder_ > 0 && limit_order::lifetime_t::immediate_or_cancel == order.lifetime) {
+                    kill(order, remainder_);
+                }else if(remainder_ > 0) {
                     limit_order placed_ = order;
                     placed_.quantity    = remainder_;
                     auto pair_          = std::make_pair(next_, placed_);
-- 
2.43.0


From 0cbe650e98fdd0e3631652c16141c11a1bef0c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 10/56] fix: the static order book reported limits a tick off

The limit of an order was recomputed from its level through floating point
and truncated, so a resting order of 0.29 was quoted and traded at 0.28.
---
 esl/economics/markets/order_book/static_order_book.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/esl/economics/markets/order_book/static_order_book.hpp b/esl/economics/markets/order_book/static_order_book.hpp
index be02149..6770965 100644
--- a/esl/economics/markets/order_book/static_order_book.hpp
+++ b/esl/economics/markets/order_book/static_order_book.hpp
@@ -305,8 +305,7 @@ namespace esl::economics::markets::order_book {
                 if(!best_bid_->first){
                     return {};
                 }
-                std::ptrdiff_t limit_ = best_bid_ - &limits_[0];
-                return decode(valid_limits, limit_);
+                return best_bid_->first->data.limit;
             }
 
             ///
@@ -318,9 +317,7 @@ namespace esl::economics::markets::order_book {
                 if(!best_ask_->first){
                     return {};
                 }
-
-                std::ptrdiff_t limit_ = best_ask_ - &limits_[0];
-                return decode(valid_limits, limit_);
+                return best_ask_->first->data.limit;
             }
 
             ///
@@ -360,7 +357,7 @@ namespace esl::economics::markets::order_book {
 
                     }
 
-                    auto quote_ = decode(valid_limits, level - &limits_[0]);
+                    auto quote_ = ao->data.limit;
                     // execution report for liquidity taker
                     reports.emplace_back(execution_report
                                              ( execution_report::match
-- 
2.43.0


From 5ddc7b8e062594b4ec4fc4e88aee215dca69fa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 11/56] fix: the static order book looked for quotes outside
 its price range

When the last order at the lowest bid or highest ask was executed, the best
bid or ask pointed before or beyond the price levels.
---
 esl/economics/markets/order_book/static_order_book.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/esl/economics/markets/order_book/static_order_book.hpp b/esl/economics/markets/order_book/static_order_book.hpp
index 6770965..06678f8 100644
--- a/esl/economics/markets/order_book/static_order_book.hpp
+++ b/esl/economics/markets/order_book/static_order_book.hpp
@@ -404,16 +404,18 @@ namespace esl::economics::markets::order_book {
                         if(order.side == limit_order::buy){
                             // increase the best ask, until we find an order, or exhaust the order book
                             // TODO: worst_ask_
-                            for(++best_ask_; best_ask_ <= &limits_.back(); ++best_ask_){
-                                if(best_ask_->first || best_ask_ == &limits_.back()){
+                            while(best_ask_ < &limits_.back()){
+                                ++best_ask_;
+                                if(best_ask_->first){
                                     break;
                                 }
                             }
                         }else{
                             // decrease the best bid, until we find an order, or exhaust the order book
                             // TODO: worst_bid_
-                            for(--best_bid_; best_bid_ >= &limits_[0]; --best_bid_){
-                                if(best_bid_->first || best_bid_ == &limits_[0]){
+                            while(best_bid_ > &limits_.front()){
+                                --best_bid_;
+                                if(best_bid_->first){
                                     break;
                                 }
                             }
-- 
2.43.0


From aff39e14e14d4d432f50eb31f8b035931c471a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 12/56] fix: cancelling the best order hid all other orders of
 a static order book

---
 .../markets/order_book/static_order_book.hpp          | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/esl/economics/markets/order_book/static_order_book.hpp b/esl/economics/markets/order_book/static_order_book.hpp
index 06678f8..679533a 100644
--- a/esl/economics/markets/order_book/static_order_book.hpp
+++ b/esl/economics/markets/order_book/static_order_book.hpp
@@ -669,6 +669,17 @@ namespace esl::economics::markets::order_book {
                 order_.limit    = quote();
                 order_.owner    = identity<agent>();
                 order_.quantity = 0;
+
+                // the last order at the best level was cancelled
+                if(none_set_ && limit_order::side_t::buy == side_ && best_bid_ == limit_level_) {
+                    while(best_bid_ > &limits_.front() && !best_bid_->first) {
+                        --best_bid_;
+                    }
+                }else if(none_set_ && limit_order::side_t::sell == side_ && best_ask_ == limit_level_) {
+                    while(best_ask_ < &limits_.back() && !best_ask_->first) {
+                        ++best_ask_;
+                    }
+                }
             }
 
             ///
-- 
2.43.0


From 24d334181d686c2548bfe7b58520bb8266c53abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 13/56] fix: an order at the end of the price range was quoted
 on both sides

---
 esl/economics/markets/order_book/static_order_book.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/esl/economics/markets/order_book/static_order_book.hpp b/esl/economics/markets/order_book/static_order_book.hpp
index 679533a..e5150e9 100644
--- a/esl/economics/markets/order_book/static_order_book.hpp
+++ b/esl/economics/markets/order_book/static_order_book.hpp
@@ -305,6 +305,10 @@ namespace esl::economics::markets::order_book {
                 if(!best_bid_->first){
                     return {};
                 }
+                // a sell order at the lowest level, there are no bids
+                if(best_bid_ == best_ask_ && best_bid_ == &limits_.front()) {
+                    return {};
+                }
                 return best_bid_->first->data.limit;
             }
 
@@ -317,6 +321,10 @@ namespace esl::economics::markets::order_book {
                 if(!best_ask_->first){
                     return {};
                 }
+                // a buy order at the highest level, there are no asks
+                if(best_bid_ == best_ask_ && best_ask_ == &limits_.back()) {
+                    return {};
+                }
                 return best_ask_->first->data.limit;
             }
 
-- 
2.43.0


From a39582c9c8cb2210e0b17afa557b0ef24dc27dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 14/56] fix: cancelling an order again raised an error in the
 static order book

---
 esl/computation/block_pool.hpp                         | 9 +++++++++
 esl/economics/markets/order_book/static_order_book.hpp | 5 +++++
 2 files changed, 14 insertions(+)

diff --git a/esl/computation/block_pool.hpp b/esl/computation/block_pool.hpp
index af4f99f..1f0d7d0 100644
--- a/esl/computation/block_pool.hpp
+++ b/esl/computation/block_pool.hpp
@@ -301,6 +301,15 @@ namespace esl::computation::block_pool {
             return 1;
         }
 
+        ///
+        /// \brief  Whether there is an element with index i
+        ///
+        [[nodiscard]] bool contains(index i) const
+        {
+            return std::numeric_limits<typename block<element_t_>::index_t>::max() != i
+                && blocks[i % capacity()].index == i;
+        }
+
         ///
         /// \brief  Returns a reference to the element at index i modulo the pool size.
         /// 
diff --git a/esl/economics/markets/order_book/static_order_book.hpp b/esl/economics/markets/order_book/static_order_book.hpp
index e5150e9..9e45998 100644
--- a/esl/economics/markets/order_book/static_order_book.hpp
+++ b/esl/economics/markets/order_book/static_order_book.hpp
@@ -596,6 +596,11 @@ namespace esl::economics::markets::order_book {
             /// \param order
             void cancel(basic_book::order_identifier order) override
             {
+                if(!pool_.contains(order)) {
+                    // the order was matched fully/cancelled before
+                    return;
+                }
+
                 record &order_ = pool_[order];
 
                 auto side_ = limit_order::side_t::buy;
-- 
2.43.0


From 0703fe7a5a4fa37a724218ff38c2e07df63357c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 15/56] fix: a fill-or-kill order could be filled in part and
 rest in the static order book

---
 .../markets/order_book/static_order_book.hpp  | 35 +++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/esl/economics/markets/order_book/static_order_book.hpp b/esl/economics/markets/order_book/static_order_book.hpp
index 9e45998..612ee14 100644
--- a/esl/economics/markets/order_book/static_order_book.hpp
+++ b/esl/economics/markets/order_book/static_order_book.hpp
@@ -435,6 +435,28 @@ namespace esl::economics::markets::order_book {
                 return remainder_;
             }
 
+            ///
+            /// \brief  Whether the resting orders can execute the order
+            ///         entirely, used for fill-or-kill orders
+            ///
+            [[nodiscard]] bool fills(const limit_order &order, const limit_type *level) const
+            {
+                const bool buy_ = limit_order::buy == order.side;
+                if(!(buy_ ? ask() : bid()).has_value()) {
+                    return false;
+                }
+                const limit_type *first_ = buy_ ? best_ask_ : level;
+                const limit_type *last_  = buy_ ? level : best_bid_;
+
+                std::uint64_t available_ = 0;
+                for(auto l = first_; l <= last_; ++l) {
+                    for(auto o = l->first; nullptr != o; o = o->data.successor) {
+                        available_ += o->data.quantity;
+                    }
+                }
+                return order.quantity <= available_;
+            }
+
             ///
             /// \brief
             ///
@@ -489,6 +511,19 @@ namespace esl::economics::markets::order_book {
 
                 limit_type *limit_level_ = &limits_[limit_index_];
 
+                if(order.lifetime == limit_order::lifetime_t::fill_or_kill
+                   && !fills(order, limit_level_)){
+                    reports.emplace_back(execution_report
+                                             ( execution_report::cancel
+                                             , order.side
+                                             , order.quantity
+                                             , basic_book::direct_order
+                                             , order.limit
+                                             , order.owner
+                                             ));
+                    return;
+                }
+
                 if(order.side == limit_order::buy && ask().has_value() && order.limit >= ask().value()) {
                     // direct execution: buyer aggressor
                     for(auto al = best_ask_; al <= limit_level_ && 0 < remainder_; ++al){
-- 
2.43.0


From c90ced68521a5431884bdc84a87f3eb13418d63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 16/56] fix: the computational environment did not compile

---
 esl/computation/environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/computation/environment.cpp b/esl/computation/environment.cpp
index 1e3f381..6be27b1 100644
--- a/esl/computation/environment.cpp
+++ b/esl/computation/environment.cpp
@@ -233,7 +233,7 @@ namespace esl::computation {
                 std::cout << "\rrun " << step_.lower << "/" << step_.upper << " [";
                 auto progress_ = double(step_.upper - step_.lower) / (step_.upper - simulation_time_start);
                 for(auto i = 0; i < width_; ++i) {
-                    if(i < unsigned int((1.-progress_) * width_)) {
+                    if(i < static_cast<unsigned int>((1.-progress_) * width_)) {
                         std::cout << '|';
                     } else {
                         std::cout << ' ';
-- 
2.43.0


From f54e91f0f7eb80b0df89fb22fa179db4df138001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 17/56] fix: activating agents added to the list that was being
 processed

---
 esl/computation/environment.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/esl/computation/environment.cpp b/esl/computation/environment.cpp
index 6be27b1..23a3b1f 100644
--- a/esl/computation/environment.cpp
+++ b/esl/computation/environment.cpp
@@ -60,7 +60,9 @@ namespace esl::computation {
     size_t environment::activate()
     {
         size_t result_ = 0;
-        for(const auto &a: activated_) {
+        // activating an agent adds it to the list
+        const auto pending_ = activated_;
+        for(const auto &a: pending_) {
             activate_agent(a);
             ++result_;
         }
@@ -74,10 +76,12 @@ namespace esl::computation {
     size_t environment::deactivate()
     {
         size_t result_ = 0;
-        for(const auto &a: deactivated_) {
+        const auto pending_ = deactivated_;
+        for(const auto &a: pending_) {
             deactivate_agent(a);
             ++result_;
         }
+        deactivated_.clear();
         return result_;
     }
 
-- 
2.43.0


From 95131be76ba86ac5601ef18381423cb64849e038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 18/56] fix: a message was delivered late when its recipient
 acted before it was due

The wake-up time of an agent was replaced by the time returned by its actions,
and messages already waiting in its inbox for a later time were forgotten.
---
 esl/interaction/communicator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/esl/interaction/communicator.cpp b/esl/interaction/communicator.cpp
index e1fef9d..9696a2b 100644
--- a/esl/interaction/communicator.cpp
+++ b/esl/interaction/communicator.cpp
@@ -88,6 +88,8 @@ namespace esl::interaction {
     communicator::process_messages(const simulation::time_interval &step,
                                    std::seed_seq &seed)
     {
+        auto first_event_ = step.upper;
+
         // create mapping priority -> message
         std::multimap< priority_t
                      , message_t
@@ -97,6 +99,7 @@ namespace esl::interaction {
         for(const auto &[k, m]: inbox) {
             // message will be received in the future
             if(k > step.lower) {
+                first_event_ = std::min(first_event_, k);
                 break;
             }
 
@@ -114,8 +117,6 @@ namespace esl::interaction {
             priority_.insert(std::make_pair(highest_priority, m));
         }
 
-        auto first_event_ = step.upper;
-
         for(auto i = priority_.rbegin(); i != priority_.rend(); ++i) {
             std::vector<message_t> equal_;
             for(auto upper_ = i;
-- 
2.43.0


From 121ff35f6c67ba9382029ff9d2593bbd73b3976b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 19/56] fix: messages scheduled in order were handled in
 reverse order

---
 esl/interaction/communicator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/esl/interaction/communicator.cpp b/esl/interaction/communicator.cpp
index 9696a2b..90ba981 100644
--- a/esl/interaction/communicator.cpp
+++ b/esl/interaction/communicator.cpp
@@ -129,6 +129,9 @@ namespace esl::interaction {
             if(random == schedule) {
                 std::minstd_rand g(seed);
                 std::shuffle(equal_.begin(), equal_.end(), g);
+            }else{
+                // the messages were collected starting with the latest
+                std::reverse(equal_.begin(), equal_.end());
             }
 
             for(const auto &m : equal_) {
-- 
2.43.0


From 00896a67c1516a2e7c171e9bbbe456eacf6a4d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 20/56] fix: a wake-up time in the past made a step of the
 model run forever

---
 esl/simulation/model.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/esl/simulation/model.cpp b/esl/simulation/model.cpp
index e3f7484..441970e 100644
--- a/esl/simulation/model.cpp
+++ b/esl/simulation/model.cpp
@@ -198,10 +198,10 @@ namespace esl::simulation {
                     auto [ww, _] = wake_up_times.emplace(i, step.lower);
                     w=ww;
                 }
-                // this comparison is strict equality, because an agent
-                // returning a time_point before the current time form act() is
-                // a logical error
-                if(w->second == step.lower){
+                // an agent returning a time_point before the current time from
+                // act() is a logical error, but the wake-up time can be in the
+                // past for a message with an earlier delivery time
+                if(w->second <= step.lower){
                     //std::cout << "active " << i << a->describe() << std::endl;
                     acting_agents_.push_back(a);
                 }
-- 
2.43.0


From 473780fc487e7b166be27d1f4c5ed529f265e003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 21/56] fix: the wake-up time of a deactivated agent made the
 model run forever

---
 esl/simulation/model.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/esl/simulation/model.cpp b/esl/simulation/model.cpp
index 441970e..f58c743 100644
--- a/esl/simulation/model.cpp
+++ b/esl/simulation/model.cpp
@@ -71,6 +71,9 @@ namespace esl::simulation {
         //for(auto &[i, a] : agents.local_agents_) {
         //    auto iterator_ = wake_up_times.find(i);
         for(const auto &[i, t] : wake_up_times) {
+            if(agents.local_agents_.end() == agents.local_agents_.find(i)) {
+                continue;
+            }
             if(result_ > t) {
                 blockers_ = {i};  //.clear();
                 result_   = std::min(result_, t);
-- 
2.43.0


From 727c0cd0ae6d11b8341e53d5b3dd8b0e53904122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 22/56] fix: the number of threads of a model was set from its
 verbosity

---
 esl/simulation/parameter/parametrization.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/simulation/parameter/parametrization.hpp b/esl/simulation/parameter/parametrization.hpp
index 15658cc..c416354 100644
--- a/esl/simulation/parameter/parametrization.hpp
+++ b/esl/simulation/parameter/parametrization.hpp
@@ -61,7 +61,7 @@ namespace esl::simulation::parameter {
             values["start"]     = std::make_shared<constant<time_point>>(start);
             values["end"]       = std::make_shared<constant<time_point>>(end);
             values["verbosity"] = std::make_shared<constant<std::uint64_t>>(verbosity);
-            values["threads"]   = std::make_shared<constant<std::uint64_t>>(verbosity);
+            values["threads"]   = std::make_shared<constant<std::uint64_t>>(threads);
         }
 
         ///
-- 
2.43.0


From 6a45d187b3d127605cc01f672bbb3675281505fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:17 +0000
Subject: [PATCH 23/56] fix: the time of a model never advanced

---
 esl/simulation/model.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esl/simulation/model.cpp b/esl/simulation/model.cpp
index f58c743..b416e85 100644
--- a/esl/simulation/model.cpp
+++ b/esl/simulation/model.cpp
@@ -251,6 +251,8 @@ namespace esl::simulation {
             ++rounds_;
         } while(step.lower >= first_event_);
 
+        // the model has advanced to the next event
+        time = first_event_;
         environment_.after_step(*this);
         auto total_ = high_resolution_clock::now() - timer_start_;
         //LOG(notice) << "step " << step << " took " << (double(total_.count()) / 1e+9) <<  " seconds" << std::endl;
-- 
2.43.0


From 0d707dbf231604094f8494d68574908360bba1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:26 +0000
Subject: [PATCH 24/56] fix: a thread pool of zero threads had no queues and
 divided by zero

The constructor replaced its parameter only, while the queues and the member
'threads' were already set to zero.
---
 esl/computation/thread_pool.hpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/esl/computation/thread_pool.hpp b/esl/computation/thread_pool.hpp
index c0a4540..9523617 100644
--- a/esl/computation/thread_pool.hpp
+++ b/esl/computation/thread_pool.hpp
@@ -55,6 +55,18 @@ namespace esl::computation {
         ///
         std::atomic<unsigned int> index_ = 0;
 
+        ///
+        /// \brief  The number of threads to use when zero threads are requested
+        ///
+        static unsigned int available_threads(unsigned int requested)
+        {
+            if (0 < requested) {
+                return requested;
+            }
+            // hardware_concurrency is not guaranteed to work well on any OS
+            return std::max(std::thread::hardware_concurrency(), 1u);
+        }
+
     public:
         ///
         /// \brief  The workload per thread
@@ -64,17 +76,9 @@ namespace esl::computation {
         const unsigned int threads;
 
         explicit thread_pool(unsigned int threads = std::thread::hardware_concurrency())
-        : queues_(threads)
-        , threads(threads)
+        : queues_(available_threads(threads))
+        , threads(queues_.size())
         {
-            if (0 >= threads) {
-                threads = std::thread::hardware_concurrency();
-                // hardware_concurrency is not guaranteed to work well on any OS
-                if (0 >= threads) {
-                    threads = 1;
-                }
-            }
-
             auto worker_ = [this](auto i) {
                 while (true) {
                     std::function<void(void)> function_;
@@ -92,7 +96,7 @@ namespace esl::computation {
                 }
             };
 
-            for (unsigned int i = 0; i < threads; ++i) {
+            for (unsigned int i = 0; i < this->threads; ++i) {
                 threads_.emplace_back(worker_, i);
             }
         }
-- 
2.43.0


From b2069a884e154325f99fe38fe6a575897e4414a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:49 +0000
Subject: [PATCH 25/56] fix: an insufficient inventory names the quantity that
 was asked for

---
 esl/economics/accounting/inventory.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/accounting/inventory.hpp b/esl/economics/accounting/inventory.hpp
index c14331e..a857544 100644
--- a/esl/economics/accounting/inventory.hpp
+++ b/esl/economics/accounting/inventory.hpp
@@ -246,7 +246,7 @@ namespace esl::economics::accounting {
                 auto i = m.find(k);
                 if(m.end() == i) {
                     //LOG(errorlog) << "when looking for property " << boost::core::demangle(typeid(property_t_).name()) << " id: "<< k->identifier << " no entry was found" << std::endl;
-                    throw insufficent_inventory(quantity(0), quantity(1), k->identifier, boost::core::demangle(typeid(property_t_).name()));
+                    throw insufficent_inventory(quantity(0), v, k->identifier, boost::core::demangle(typeid(property_t_).name()));
                 } else if(i->second < v) {
                     //LOG(errorlog) << "when looking for property " << boost::core::demangle(typeid(property_t_).name()) << " id: "<< k->identifier << " there were insufficient ("<<i->second<<") items to withdraw " << v << std::endl;
                     throw insufficent_inventory(i->second, v, k->identifier, k->name());
-- 
2.43.0


From b51d2bf03a2269d49a69633ed6418b3cee716edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:50 +0000
Subject: [PATCH 26/56] fix: withdrawing nothing of a property that is not in
 the inventory reads past its end

---
 esl/economics/accounting/inventory.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/esl/economics/accounting/inventory.hpp b/esl/economics/accounting/inventory.hpp
index a857544..e9e5e7d 100644
--- a/esl/economics/accounting/inventory.hpp
+++ b/esl/economics/accounting/inventory.hpp
@@ -205,7 +205,10 @@ namespace esl::economics::accounting {
         {
             auto iterator_ = items.find(item);
 
-            if(items.end() == iterator_ && q.amount > 0) {
+            if(items.end() == iterator_) {
+                if(q.amount == 0) {
+                    return;
+                }
                 throw insufficent_inventory(quantity(0), q, item->identifier, boost::core::demangle(typeid(property_t_).name()));
             }
 
-- 
2.43.0


From 08e11fb293490195ba071cca074bd5ffcf9f2d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:50 +0000
Subject: [PATCH 27/56] fix: a transfer to oneself takes the property from the
 filtered properties

---
 esl/economics/owner.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/esl/economics/owner.hpp b/esl/economics/owner.hpp
index 1307ace..3fbf976 100644
--- a/esl/economics/owner.hpp
+++ b/esl/economics/owner.hpp
@@ -195,6 +195,10 @@ namespace esl::law {
                                             simulation::time_interval ti,
                                             std::seed_seq &seed) {
                 (void)seed;
+                if(msg->transferor == msg->transferee) {
+                    return ti.upper;
+                }
+
                 if((*this).identifier == msg->transferor) {
                     // this process is duplicated several times for every
                     // inherited owner<p>, as we are reliant on dynamic type
-- 
2.43.0


From 5889663f2344560ae34d05265e822d3f557e2e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:50 +0000
Subject: [PATCH 28/56] fix: taking more of a property that is owned already
 leaves the inventory as it was

---
 esl/economics/owner.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/esl/economics/owner.hpp b/esl/economics/owner.hpp
index 3fbf976..e477a10 100644
--- a/esl/economics/owner.hpp
+++ b/esl/economics/owner.hpp
@@ -256,8 +256,7 @@ namespace esl::law {
         void take(std::shared_ptr<property_t_> property, quantity amount)
         {
             this->properties.insert(property, amount);
-            esl::law::owner<esl::law::property>::inventory.insert(
-                std::make_pair(property, amount));
+            esl::law::owner<esl::law::property>::inventory[property] += amount;
         }
 
 
-- 
2.43.0


From a5e2b458cec374b26881aba937eb9d4924adea7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:47 +0000
Subject: [PATCH 29/56] fix: a legal entity identifier from a short text reads
 past its end

---
 esl/law/legal_entity.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/esl/law/legal_entity.hpp b/esl/law/legal_entity.hpp
index ce5f8d6..7cb1259 100644
--- a/esl/law/legal_entity.hpp
+++ b/esl/law/legal_entity.hpp
@@ -79,9 +79,10 @@ namespace esl::law {
         ///             checksum (compared to computed value), when assertions
         ///             are enabled.
         explicit iso_17442(const std::string &text)
-        : local {text[0], text[1], text[2], text[3]}
-        , code {text[6],  text[7],  text[8],  text[9],  text[10], text[11],
-                text[12], text[13], text[14], text[15], text[16], text[17]}
+        : local {text.at(0), text.at(1), text.at(2), text.at(3)}
+        , code {text.at(6),  text.at(7),  text.at(8),  text.at(9),
+                text.at(10), text.at(11), text.at(12), text.at(13),
+                text.at(14), text.at(15), text.at(16), text.at(17)}
         {
             assert(18 == text.length() || 20 == text.length());
             for(auto i = 0; i < 4; ++i) {
-- 
2.43.0


From 258f2b5e7a2f58f05881e4486a22fb7d48255141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:47 +0000
Subject: [PATCH 30/56] fix: the default legal entity identifier consists of
 zero digits, not null characters

---
 esl/law/legal_entity.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/esl/law/legal_entity.hpp b/esl/law/legal_entity.hpp
index 7cb1259..cc8e093 100644
--- a/esl/law/legal_entity.hpp
+++ b/esl/law/legal_entity.hpp
@@ -65,8 +65,10 @@ namespace esl::law {
         /// \param local    The local part describing the local issuing party of
         /// the LEI. \param code     The code part describing uniquely a firm
         /// that is in the issuing party's business area.
-        constexpr iso_17442(const std::array<char, 4> &local = {'0'},
-                               const std::array<char, 12> &code = {'0'})
+        constexpr iso_17442(const std::array<char, 4> &local = {'0', '0', '0', '0'},
+                               const std::array<char, 12> &code = {'0', '0', '0', '0',
+                                                                   '0', '0', '0', '0',
+                                                                   '0', '0', '0', '0'})
         : local(local), code(code)
         {
 
-- 
2.43.0


From 2df038d01349bfd51de5fe3e5e65b02ac7873ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:47 +0000
Subject: [PATCH 31/56] fix: a market identifier code from a text that has not
 four symbols reads past its end or loses symbols

---
 esl/economics/markets/iso_10383.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/esl/economics/markets/iso_10383.hpp b/esl/economics/markets/iso_10383.hpp
index 928cdca..513efed 100644
--- a/esl/economics/markets/iso_10383.hpp
+++ b/esl/economics/markets/iso_10383.hpp
@@ -61,7 +61,10 @@ namespace esl::economics::markets {
         /// \brief Construct an ISO 10383 code from a 4 symbol string.
         /// \param  code A  4 symbol alphanumeric code A-Z | 0-9
         explicit iso_10383(const std::string &code)
-        : iso_10383(std::array<char, 4> {code[0], code[1], code[2], code[3]})
+        : iso_10383(4 == code.length()
+                        ? std::array<char, 4> {code[0], code[1], code[2], code[3]}
+                        : throw esl::exception("market identifier code \"" + code
+                                               + "\" does not have 4 symbols"))
         {
 
         }
-- 
2.43.0


From 6b5414f2b42f86cd483b93790d3174b2f39e9319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:03 +0000
Subject: [PATCH 32/56] fix: a company waiting to pay a dividend asks to act
 when it was announced, in the past

---
 esl/economics/company.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/company.cpp b/esl/economics/company.cpp
index 6206c0f..550cd46 100644
--- a/esl/economics/company.cpp
+++ b/esl/economics/company.cpp
@@ -177,7 +177,7 @@ namespace esl::economics {
             }
         } else {
             next_event_ = std::min<simulation::time_point>(
-                policy_.announcement_date, next_event_);
+                policy_.payable_date, next_event_);
         }
         return next_event_;
     }
-- 
2.43.0


From bbab086b4bca3f5d1a3e09afb2b72ddbf22f6381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:03 +0000
Subject: [PATCH 33/56] fix: a shareholder keeps the currency of the first
 price when a price in another one is quoted

---
 esl/economics/finance/shareholder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/finance/shareholder.cpp b/esl/economics/finance/shareholder.cpp
index 89168ad..9934225 100644
--- a/esl/economics/finance/shareholder.cpp
+++ b/esl/economics/finance/shareholder.cpp
@@ -73,7 +73,7 @@ namespace esl::economics::finance {
                     if(prices.end() == i){
                         prices.emplace(k, std::get<price>(v.type));
                     }else{
-                        i->second.value = std::get<price>(v.type).value;
+                        i->second = std::get<price>(v.type);
                     }
                 }
                 return step.upper;
-- 
2.43.0


From f0e8cadd51584adb872341c5f36806b9d9b6cb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:03 +0000
Subject: [PATCH 34/56] fix: the dividend per share is the dividend of all
 shares of its class

---
 esl/economics/company.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esl/economics/company.cpp b/esl/economics/company.cpp
index 550cd46..439510f 100644
--- a/esl/economics/company.cpp
+++ b/esl/economics/company.cpp
@@ -61,7 +61,7 @@ namespace esl::economics {
     {
         // in the default implementation, the company does not pay out of it
         // did not have any excess income in the previous period
-        if(double(unappropriated_profit) <= 0) {
+        if(double(unappropriated_profit) <= 0 || 0 == total_shares()) {
             return {};
         }
 
@@ -72,7 +72,7 @@ namespace esl::economics {
         for(const auto &[s, q]: shares_outstanding) {
             if(s.dividend) {
                 result_.insert(make_pair(
-                    s, std::make_tuple(q,cash(primary_jurisdiction.tender).price(fraction_ * q))));
+                    s, std::make_tuple(q,cash(primary_jurisdiction.tender).price(fraction_))));
             }
         }
 
-- 
2.43.0


From a0f497389f6c986e208848d47519da807624304e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:43 +0000
Subject: [PATCH 35/56] fix: the value of foreign money is in the reporting
 currency

---
 esl/economics/accounting/standard.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/accounting/standard.hpp b/esl/economics/accounting/standard.hpp
index 1acc00c..b0034a0 100644
--- a/esl/economics/accounting/standard.hpp
+++ b/esl/economics/accounting/standard.hpp
@@ -83,7 +83,7 @@ namespace esl::economics::accounting {
                 LOG(errorlog) << message_.str() << std::endl;
                 throw std::domain_error(message_.str().c_str());
             }
-            return i->second * foreign_;
+            return price((i->second * foreign_).value, reporting_currency);
         }
 
         [[nodiscard]] price value(const esl::economics::cash &c, const quantity &q) const
-- 
2.43.0


From 9477e493c1cb9b24a3ed76ea9176b20d3f159e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:43 +0000
Subject: [PATCH 36/56] fix: the value of stock with a negative price is
 computed without sign

---
 esl/economics/accounting/standard.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esl/economics/accounting/standard.hpp b/esl/economics/accounting/standard.hpp
index b0034a0..dfe7631 100644
--- a/esl/economics/accounting/standard.hpp
+++ b/esl/economics/accounting/standard.hpp
@@ -99,8 +99,8 @@ namespace esl::economics::accounting {
                 throw std::logic_error("no market price");
             }
 
-            int64_t value_ = (std::get<price>(i->second.type).value * q.amount)
-                / (i->second.lot);
+            int64_t value_ = (std::get<price>(i->second.type).value * int64_t(q.amount))
+                / int64_t(i->second.lot);
 
             return price(value_, std::get<price>(i->second.type).valuation);
         }
-- 
2.43.0


From 021bba018508f4bb04bf3dfd6a1bc214a4c68d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:43 +0000
Subject: [PATCH 37/56] fix: the value of lent securities with a negative price
 is computed without sign

---
 esl/economics/accounting/standard.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esl/economics/accounting/standard.hpp b/esl/economics/accounting/standard.hpp
index dfe7631..8226d72 100644
--- a/esl/economics/accounting/standard.hpp
+++ b/esl/economics/accounting/standard.hpp
@@ -120,8 +120,8 @@ namespace esl::economics::accounting {
                 throw std::logic_error("no market price");
             }
             // TODO: use foreign_currencies if valuation is in different currency
-            int64_t value_ = (std::get<price>(i->second.type).value * c.size.amount * q.amount)
-                             / (i->second.lot);
+            int64_t value_ = (std::get<price>(i->second.type).value * int64_t(c.size.amount) * int64_t(q.amount))
+                             / int64_t(i->second.lot);
             result_.value -= value_;
             //LOG(trace) << "value of " << q << " short contracts = " << result_ << std::endl;
             return result_;
-- 
2.43.0


From b05da5e167f3ceec2f5e128fb78bab5f8619dcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:55 +0000
Subject: [PATCH 38/56] fix: a grid or hypercube with one point per parameter
 samples no number, and the last point can miss the upper bound

---
 esl/simulation/parameter/sampler.hpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/esl/simulation/parameter/sampler.hpp b/esl/simulation/parameter/sampler.hpp
index 45d2682..132d685 100644
--- a/esl/simulation/parameter/sampler.hpp
+++ b/esl/simulation/parameter/sampler.hpp
@@ -81,6 +81,28 @@ namespace esl::simulation::parameter {
             return result_;
         }
 
+        ///
+        /// \brief  One of a number of evenly spaced values in an interval, the
+        ///         first of which is the lower bound, and the last of which is
+        ///         the upper bound
+        ///
+        /// \param  parameter   The interval
+        /// \param  index       Index of the value
+        /// \param  density     Number of values
+        template<typename number_t_>
+        number_t_ grid_value( const parameter::interval<number_t_> &parameter
+                            , unsigned int index
+                            , unsigned int density)
+        {
+            if(0 == index){
+                return parameter.lower;
+            }
+            if(density - 1 == index){
+                return parameter.upper;
+            }
+            return parameter.lower + (parameter.upper - parameter.lower) / (density - 1) * index;
+        }
+
         ///
         /// \brief  Samples the parameter space in a grid
         ///
@@ -101,7 +123,7 @@ namespace esl::simulation::parameter {
                 values_[p].reserve(d);
                 indices_.emplace(p, 0);
                 for(unsigned int s = 0; s < d; ++s){
-                    auto v = p->lower + (p->upper - p->lower) / (d - 1) * s;
+                    auto v = grid_value(*p, s, d);
                     values_[p].emplace_back(v);
                 }
             }
@@ -146,7 +168,7 @@ namespace esl::simulation::parameter {
                 values_[p].reserve(density);
                 indices_[p].reserve(density);
                 for(unsigned int s = 0; s < density; ++s){
-                    auto v = p->lower + (p->upper - p->lower) / (density - 1) * s;
+                    auto v = grid_value(*p, s, density);
                     auto i = values_[p]. emplace_back(v);
                     indices_[p]. emplace_back(s);
                 }
-- 
2.43.0


From 1421c4ac4544dfdc1bcfaeb9b34b5c0530c62202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:56 +0000
Subject: [PATCH 39/56] fix: sampling parameters uniformly does not compile,
 and could round to a value above the upper bound

---
 esl/simulation/parameter/sampler.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/esl/simulation/parameter/sampler.hpp b/esl/simulation/parameter/sampler.hpp
index 132d685..010d058 100644
--- a/esl/simulation/parameter/sampler.hpp
+++ b/esl/simulation/parameter/sampler.hpp
@@ -62,7 +62,7 @@ namespace esl::simulation::parameter {
             for(const auto &p: parameters){
                 // the upper bound is exclusive in the distribution, so we move
                 // the bound up
-                distributions_.template emplace(p, std::uniform_real_distribution<number_t_>
+                distributions_.emplace(p, std::uniform_real_distribution<number_t_>
                     ( p->lower
                     , std::nextafter(p->upper, std::numeric_limits<number_t_>::infinity())));
             }
@@ -73,9 +73,10 @@ namespace esl::simulation::parameter {
                 std::map<std::shared_ptr<parameter::interval<number_t_>>,
                          number_t_> sample_;
                 for(const auto &p: parameters) {
-                    sample_[p] = distributions_[p].get()(generator_);
+                    // rounding can reach the moved bound
+                    sample_[p] = std::min(p->upper, distributions_.at(p)(generator_));
                 }
-                result_.template emplace(sample_);
+                result_.emplace_back(sample_);
             }
 
             return result_;
-- 
2.43.0


From d921ddb3033ea23e0fbf1f58bf9da320f1570ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:37 +0000
Subject: [PATCH 40/56] fix: share classes of one rank are the same key of a
 map, however different

---
 esl/economics/finance/share_class.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/esl/economics/finance/share_class.hpp b/esl/economics/finance/share_class.hpp
index 797e904..2abb501 100644
--- a/esl/economics/finance/share_class.hpp
+++ b/esl/economics/finance/share_class.hpp
@@ -24,6 +24,7 @@
 #define ESL_SHARE_HPP
 
 #include <cstdint>
+#include <tuple>
 
 #include <boost/functional/hash.hpp>
 
@@ -109,7 +110,8 @@ namespace esl::economics::finance {
 
         constexpr bool operator < (const share_class &s) const
         {
-            return rank < s.rank;
+            return std::tie(rank, votes, preference, dividend, cumulative, redeemable)
+                 < std::tie(s.rank, s.votes, s.preference, s.dividend, s.cumulative, s.redeemable);
         }
 
         template<class archive_t>
-- 
2.43.0


From d58e48c8c768fbfc0103720288c75bc99cfe994b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:45 +0000
Subject: [PATCH 41/56] fix: participants that log on to an exchange are not
 recorded

---
 esl/economics/markets/centralized_exchange.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/esl/economics/markets/centralized_exchange.hpp b/esl/economics/markets/centralized_exchange.hpp
index cce9d96..b0dc8fc 100644
--- a/esl/economics/markets/centralized_exchange.hpp
+++ b/esl/economics/markets/centralized_exchange.hpp
@@ -224,14 +224,12 @@ namespace esl::economics::markets {
         {
             (void) s;
             for(const auto &t: traded_properties){
-                boost::container::flat_map<identity<agent>, position_report> individual_positions_;
                 position_report position_;
 
                 if(m->supply.find(t) != m->supply.end()){
                     position_.supply = m->supply.find(t)->second;
                 }
-                individual_positions_.emplace(m->sender, position_);
-                positions.emplace(t, individual_positions_);
+                positions[t][m->sender] = position_;
             }
             return ti.upper;
         }
-- 
2.43.0


From cd240e8cb0f8206b0d5388e7961f904dc788a74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:45 +0000
Subject: [PATCH 42/56] fix: the first subscription to market data is ignored,
 and cancelling without one erases the end

---
 esl/economics/markets/centralized_exchange.hpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/esl/economics/markets/centralized_exchange.hpp b/esl/economics/markets/centralized_exchange.hpp
index b0dc8fc..1d6e971 100644
--- a/esl/economics/markets/centralized_exchange.hpp
+++ b/esl/economics/markets/centralized_exchange.hpp
@@ -488,14 +488,8 @@ namespace esl::economics::markets {
                             if(market_data_subscriptions.end() == instrument_) {
                                 continue;
                             }
-                            auto subscription_ = market_data_subscriptions[i].find(m->sender);
-                            market_data_subscriptions[i].erase(subscription_);
+                            instrument_->second.erase(m->sender);
                         }else if(market_data_request_message::stream == m->type) {
-                            auto instrument_ = market_data_subscriptions.find(i);
-                            if(market_data_subscriptions.end() == instrument_) {
-                                continue;
-                            }
-                        
                             auto subscription_ = market_data_subscriptions[i].find(m->sender);
 
                               centralized_exchange::data_subscription s;
-- 
2.43.0


From fb9a77f5d51a4d95647edc4a3721e30abb830b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:45 +0000
Subject: [PATCH 43/56] fix: an execution report arrives after the latency of
 another participant

---
 esl/economics/markets/centralized_exchange.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/markets/centralized_exchange.hpp b/esl/economics/markets/centralized_exchange.hpp
index 1d6e971..5064caa 100644
--- a/esl/economics/markets/centralized_exchange.hpp
+++ b/esl/economics/markets/centralized_exchange.hpp
@@ -363,7 +363,7 @@ namespace esl::economics::markets {
                 {
                     simulation::time_point arrival_ = ti.lower;
                     if(communication_model) {
-                        arrival_ += communication_model->sample(identifier, m->sender, seed);
+                        arrival_ += communication_model->sample(identifier, r.owner, seed);
                     }
                     auto response_ = this->template create_message<execution_report_message>(r.owner, arrival_);
                     response_->sender = (*this);
-- 
2.43.0


From 976dbb7d0087c1b43c6c174dab461acac45c3902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:45 +0000
Subject: [PATCH 44/56] fix: a trade that changes the best quote is sent to
 subscribers twice

---
 esl/economics/markets/centralized_exchange.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/markets/centralized_exchange.hpp b/esl/economics/markets/centralized_exchange.hpp
index 5064caa..0a67ccf 100644
--- a/esl/economics/markets/centralized_exchange.hpp
+++ b/esl/economics/markets/centralized_exchange.hpp
@@ -379,7 +379,7 @@ namespace esl::economics::markets {
                 auto trade_ = (r.state == execution_report::state_t::match);
                 // or if the bed bid or ask improved
                 auto best_bid_ask_ = (ask_ != b.ask() || bid_ != b.bid());
-                if((trade_ && r.owner == m->sender) || best_bid_ask_){
+                if(trade_ ? r.identifier == basic_book::direct_order : best_bid_ask_){
                     for(auto &[subscriber_, details_]: market_data_subscriptions[m->order_details.symbol]) {
 
                         if(details_.start + details_.periodicity > ti.lower) {
-- 
2.43.0


From f2306d27601500a1570b824a2b202b0f17b88314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:45 +0000
Subject: [PATCH 45/56] fix: the owner of a cancelled order is told only when
 the next order arrives

---
 .../markets/centralized_exchange.hpp          | 67 ++++++++++++++++---
 1 file changed, 57 insertions(+), 10 deletions(-)

diff --git a/esl/economics/markets/centralized_exchange.hpp b/esl/economics/markets/centralized_exchange.hpp
index 0a67ccf..bb99b35 100644
--- a/esl/economics/markets/centralized_exchange.hpp
+++ b/esl/economics/markets/centralized_exchange.hpp
@@ -302,9 +302,28 @@ namespace esl::economics::markets {
             const auto bid_ = b.bid();
 
             b.insert(m->order_details);
+            send_reports(b, m->order_details, m->sender, ask_, bid_, ti, seed);
+            return ti.upper;
+        }
 
-            market_data data_;
-
+        ///
+        /// \brief  Sends the reports that an order book generated to the participants involved, and market data to the
+        ///         subscribers
+        ///
+        /// \param b        order book
+        /// \param order    the order that was inserted or cancelled
+        /// \param sender   the participant that inserted or cancelled it
+        /// \param ask_     best ask quote before
+        /// \param bid_     best bid quote before
+        void send_reports( order_book::basic_book &b
+                         , const limit_order &order
+                         , const identity<agent> &sender
+                         , const std::optional<quote> &ask_
+                         , const std::optional<quote> &bid_
+                         , simulation::time_interval ti
+                         , std::seed_seq &seed
+                         )
+        {
             for(const auto & r: b.reports){
                 //////////////////////////////////////////////////////////////////////////////////////////////////////
                 //if(r.owner == m->sender) {
@@ -347,10 +366,10 @@ namespace esl::economics::markets {
 
                 // we do not log rejected messages, so that later analyses do not accidently use these
                 // invalid orders should not be part of the simulation
-                if(output_orders && r.state != execution_report::state_t::invalid && r.owner == m->sender) {
+                if(output_orders && r.state != execution_report::state_t::invalid && r.owner == sender) {
                     output_orders->put( ti.lower
                                       , std::make_tuple
-                                        ( m->order_details.symbol
+                                        ( order.symbol
                                         , r.limit
                                         , r.owner
                                         , r.side
@@ -367,12 +386,12 @@ namespace esl::economics::markets {
                     }
                     auto response_ = this->template create_message<execution_report_message>(r.owner, arrival_);
                     response_->sender = (*this);
-                    response_->order  = m->order_details;
+                    response_->order  = order;
                     response_->sent   = ti.lower;
                     response_->report = r;
                 }
                 // if no one wants market data on this symbol, skip the next steps.
-                if(market_data_subscriptions.end() == market_data_subscriptions.find(m->order_details.symbol)) {
+                if(market_data_subscriptions.end() == market_data_subscriptions.find(order.symbol)) {
                     continue;
                 }
                 // if the order resulted in a match, update market data feed (once, as there will be two reports)
@@ -380,7 +399,7 @@ namespace esl::economics::markets {
                 // or if the bed bid or ask improved
                 auto best_bid_ask_ = (ask_ != b.ask() || bid_ != b.bid());
                 if(trade_ ? r.identifier == basic_book::direct_order : best_bid_ask_){
-                    for(auto &[subscriber_, details_]: market_data_subscriptions[m->order_details.symbol]) {
+                    for(auto &[subscriber_, details_]: market_data_subscriptions[order.symbol]) {
 
                         if(details_.start + details_.periodicity > ti.lower) {
                             continue;
@@ -400,7 +419,7 @@ namespace esl::economics::markets {
                         auto market_data_ = this->template create_message<market_data_message>(subscriber_, arrival_);
                         market_data_->sender = (*this);
                         market_data_->sent   = ti.lower;
-                        market_data_->symbol = m->order_details.symbol;
+                        market_data_->symbol = order.symbol;
 
                         if(trade_) {
                             market_data_->trades.push_back({r.limit, r.quantity});
@@ -416,6 +435,35 @@ namespace esl::economics::markets {
                 }
             }
             b.reports.clear();
+        }
+
+        ///
+        /// \brief  Cancels an order, and sends the reports that it generates.
+        ///
+        /// \param m
+        /// \param ti
+        /// \param s
+        /// \return
+        simulation::time_point cancel_order( std::shared_ptr<cancel_order_message> m
+                                           , simulation::time_interval ti
+                                           , std::seed_seq &seed
+                                           )
+        {
+            auto i = books.find(m->symbol);
+            if(books.end() == i) {
+                return ti.upper;
+            }
+
+            order_book::basic_book &b = *(i->second);
+            const auto ask_ = b.ask();
+            const auto bid_ = b.bid();
+
+            b.cancel(m->order);
+            if(!b.reports.empty()) {
+                const auto r = b.reports.back();
+                const limit_order order_(m->symbol, r.owner, r.side, r.limit, r.quantity);
+                send_reports(b, order_, m->sender, ask_, bid_, ti, seed);
+            }
             return ti.upper;
         }
 
@@ -535,8 +583,7 @@ namespace esl::economics::markets {
                                       , simulation::time_interval step
                                       , std::seed_seq &s) 
                                     { 
-                                        cancel(m->symbol, m->order); 
-                                        return step.upper;
+                                        return cancel_order(m, step, s);
                                     }
                                  , "cancel existing order");
         }
-- 
2.43.0


From f60867617974bd2dbf462f0edf673ef79e56a42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:45 +0000
Subject: [PATCH 46/56] fix: the positions of the participants of an exchange
 do not change when they trade

---
 esl/economics/markets/centralized_exchange.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/esl/economics/markets/centralized_exchange.hpp b/esl/economics/markets/centralized_exchange.hpp
index bb99b35..57dfaef 100644
--- a/esl/economics/markets/centralized_exchange.hpp
+++ b/esl/economics/markets/centralized_exchange.hpp
@@ -390,6 +390,17 @@ namespace esl::economics::markets {
                     response_->sent   = ti.lower;
                     response_->report = r;
                 }
+                // keep track of what the participants that are logged on traded
+                if(r.state == execution_report::state_t::match) {
+                    auto traded_ = positions.find(order.symbol);
+                    if(positions.end() != traded_) {
+                        auto position_ = traded_->second.find(r.owner);
+                        if(traded_->second.end() != position_) {
+                            (r.side == limit_order::buy ? position_->second.bought
+                                                        : position_->second.sold) += r.quantity;
+                        }
+                    }
+                }
                 // if no one wants market data on this symbol, skip the next steps.
                 if(market_data_subscriptions.end() == market_data_subscriptions.find(order.symbol)) {
                     continue;
-- 
2.43.0


From d33029438afc3e2de35f6cc6e39c37f84d04904b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:33 +0000
Subject: [PATCH 47/56] fix: an exception from an agent ends the process when
 there is more than one thread

---
 esl/simulation/model.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/esl/simulation/model.cpp b/esl/simulation/model.cpp
index b416e85..d93bd64 100644
--- a/esl/simulation/model.cpp
+++ b/esl/simulation/model.cpp
@@ -219,6 +219,9 @@ namespace esl::simulation {
                 }
             }else{
                 std::vector<std::thread> threads_;
+                // exceptions can't leave a thread, they are passed on when all are done
+                std::vector<std::exception_ptr> exceptions_(acting_agents_.size());
+                std::size_t first_ = 0;
                 auto iterator_ = acting_agents_.begin();
                 for(const auto& tasks_: quantity(acting_agents_.size()) / threads){
                     std::vector<std::shared_ptr<agent>> task_split_;
@@ -227,17 +230,28 @@ namespace esl::simulation {
                         std::advance(iterator_, 1);
                     }
 
-                    threads_.emplace_back([&](std::vector<std::shared_ptr<agent>> ts)
+                    threads_.emplace_back([&](std::vector<std::shared_ptr<agent>> ts, std::size_t first)
                         {
-                            for(const auto& a: ts){
-                                job_(a);
+                            try {
+                                for(const auto& a: ts){
+                                    job_(a);
+                                }
+                            } catch(...) {
+                                exceptions_[first] = std::current_exception();
                             }
-                        }, task_split_);
+                        }, task_split_, first_);
+                    first_ += task_split_.size();
                 }
 
                 for(auto &t: threads_){
                     t.join();
                 }
+
+                for(const auto &e: exceptions_){
+                    if(e){
+                        std::rethrow_exception(e);
+                    }
+                }
             }
 
             auto messages_sent_ = environment_.send_messages(*this);
-- 
2.43.0


From 3a5b9cd2f39d07abfbb7e6779fb12a210ff75bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:18 +0000
Subject: [PATCH 48/56] fix: ending a line of a log channel waits for itself

---
 esl/data/channel.hpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/esl/data/channel.hpp b/esl/data/channel.hpp
index da4da6d..c43dffb 100644
--- a/esl/data/channel.hpp
+++ b/esl/data/channel.hpp
@@ -121,7 +121,6 @@ namespace esl::data {
         /// \return
         channel &operator<<(manipulator function)
         {
-            std::lock_guard<std::mutex> lock_(mutex_);
             return function(*this);
         }
 
@@ -131,12 +130,7 @@ namespace esl::data {
         /// \return
         static channel &endl(channel &stream)
         {
-            std::lock_guard<std::mutex> lock_(mutex_);
-            stream << std::endl;
-#if !(defined(ESL_RELEASE) && ESL_RELEASE > 0)
-            std::cout << std::endl;
-#endif
-            return stream;
+            return stream << std::endl;
         }
 
         typedef std::basic_ostream<char, std::char_traits<char>> ostream_t;
-- 
2.43.0


From 3699b46e75a0471c0e49aa099294c224c9e51e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:28 +0000
Subject: [PATCH 49/56] fix: ISINs from texts of another length are not refused

The length was checked after the symbols were copied, and of the copy.
---
 esl/economics/finance/isin.hpp | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/esl/economics/finance/isin.hpp b/esl/economics/finance/isin.hpp
index 413f8cb..5914964 100644
--- a/esl/economics/finance/isin.hpp
+++ b/esl/economics/finance/isin.hpp
@@ -83,11 +83,10 @@ namespace esl::economics::finance {
         /// \param code     The code part describing a security as a string with
         ///                 the code symbols in positions 0-8
         isin(geography::iso_3166_1_alpha_2 issuer, const std::string &nsin_code)
-        : isin(issuer, esl::to_array<0, 9, char>(nsin_code))
+        : isin(issuer, esl::to_array<0, 9, char>(9 == nsin_code.size() || 10 == nsin_code.size() ? nsin_code
+              : throw esl::exception("A valid ISIN has 9 symbols in the NSIN part, or 9 symbols plus the ISIN checksum.")))
         {
-            if((9 > code.size()) || (10 < code.size())){
-                throw esl::exception("A valid ISIN has 9 symbols in the NSIN part, or 9 symbols plus the ISIN checksum.");
-            }
+
         }
 
         ///
@@ -97,11 +96,9 @@ namespace esl::economics::finance {
         /// \param code     The code part describing a security as a string with
         ///                 the code symbols in positions 0-8
         isin(const std::string &issuer, const std::string &nsin_code)
-        : isin(geography::iso_3166_1_alpha_2(issuer), esl::to_array<0, 9, char>(nsin_code))
+        : isin(geography::iso_3166_1_alpha_2(issuer), nsin_code)
         {
-            if(2 != issuer.size()){
-                throw esl::exception("The issuer part of the ISIN must be 2 letters (ISO 3166)");
-            }
+
         }
 
         ///
@@ -109,11 +106,10 @@ namespace esl::economics::finance {
         ///
         /// \param code     The code part describing a security
         explicit isin(const std::string &code = "AA000000000")
-        : isin(esl::to_array<0, 11, char>(code))
+        : isin(esl::to_array<0, 11, char>(11 == code.size() || 12 == code.size() ? code
+              : throw esl::exception("A valid ISIN is constructed from 11 or 12 symbols.")))
         {
-            if(!(11 == code.size() || 12 == code.size())){
-                throw esl::exception("A valid ISIN is constructed from 11 or 12 symbols.");
-            }
+
         }
 
         ///
-- 
2.43.0


From 71b670ed757118f2531c125367fda937f7ae00cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:41 +0000
Subject: [PATCH 50/56] fix: a price read from an archive keeps neither value
 nor currency

---
 esl/economics/price.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/esl/economics/price.hpp b/esl/economics/price.hpp
index f254242..01e19d2 100644
--- a/esl/economics/price.hpp
+++ b/esl/economics/price.hpp
@@ -330,6 +330,19 @@ namespace esl::economics {
         void serialize(archive_t &archive, const unsigned int version)
         {
             (void)version;
+            if constexpr(archive_t::is_loading::value) {
+                std::string text_;
+                archive & boost::serialization::make_nvp("price", text_);
+
+                const auto slash_ = text_.find('/');
+                if(text_.length() < 4 || std::string::npos == slash_) {
+                    throw std::invalid_argument("not a price: " + text_);
+                }
+                value     = std::stoll(text_.substr(4));
+                valuation = iso_4217({text_[0], text_[1], text_[2]}
+                                    , std::stoull(text_.substr(slash_ + 1)));
+                return;
+            }
             //archive &BOOST_SERIALIZATION_NVP(value);
             //archive &boost::serialization::make_nvp(
             //    "valuation", const_cast<iso_4217 &>(valuation));
-- 
2.43.0


From 97b9ed4e5916dadbd8f13c1b98fdcd7a26839813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:41 +0000
Subject: [PATCH 51/56] fix: rational numbers are cut off to 32 bits in
 archives

---
 esl/mathematics/rational.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esl/mathematics/rational.hpp b/esl/mathematics/rational.hpp
index b25fa48..10358e7 100644
--- a/esl/mathematics/rational.hpp
+++ b/esl/mathematics/rational.hpp
@@ -42,7 +42,7 @@ namespace boost::serialization {
               unsigned version)
     {
         (void)version;
-        int n = r.numerator(), d = r.denominator();
+        T n = r.numerator(), d = r.denominator();
         archive &boost::serialization::make_nvp("numerator", n);
         archive &boost::serialization::make_nvp("denominator", d);
     }
@@ -51,7 +51,7 @@ namespace boost::serialization {
     void load(archive_t &archive, boost::rational<T> &r, unsigned version)
     {
         (void)version;
-        int n, d;
+        T n, d;
         archive &boost::serialization::make_nvp("numerator", n);
         archive &boost::serialization::make_nvp("denominator", d);
         r = boost::rational<T>(n, d);
-- 
2.43.0


From a8cc585d2d3188a372eed09e01a2d80bc3a12264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:41 +0000
Subject: [PATCH 52/56] fix: exchange rates can't be serialized

---
 esl/economics/exchange_rate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/economics/exchange_rate.hpp b/esl/economics/exchange_rate.hpp
index 8bb7c79..dcb7295 100644
--- a/esl/economics/exchange_rate.hpp
+++ b/esl/economics/exchange_rate.hpp
@@ -156,7 +156,7 @@ namespace esl::economics {
             (void)version;
             archive &boost::serialization::make_nvp(
                 "rate_std::uint64_t_",
-                boost::serialization::base_object<rate<>>(*this));
+                boost::serialization::base_object<rate<std::uint64_t>>(*this));
         }
     };
 }
-- 
2.43.0


From 538044cfbd732554370ab0f58b315b05f14143d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:41 +0000
Subject: [PATCH 53/56] fix: messages are serialized without their header

The base class was named but not written to or read from the archive.
---
 esl/economics/finance/dividend.hpp | 4 ++--
 esl/interaction/message.hpp        | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/esl/economics/finance/dividend.hpp b/esl/economics/finance/dividend.hpp
index e1df7e0..f6145a7 100644
--- a/esl/economics/finance/dividend.hpp
+++ b/esl/economics/finance/dividend.hpp
@@ -123,7 +123,7 @@ namespace esl::economics::finance {
         void serialize(archive_t &archive, const unsigned int version)
         {
             (void)version;
-            boost::serialization::make_nvp(
+            archive &boost::serialization::make_nvp(
                 "message",
                 boost::serialization::base_object<
                     message<dividend_announcement_message,
@@ -172,7 +172,7 @@ namespace esl::economics::finance {
         void serialize(archive_t &archive, const unsigned int version)
         {
             (void)version;
-            boost::serialization::make_nvp(
+            archive &boost::serialization::make_nvp(
                 "message",
                 boost::serialization::base_object<
                     message<dividend_record,
diff --git a/esl/interaction/message.hpp b/esl/interaction/message.hpp
index f7580cd..a32be53 100644
--- a/esl/interaction/message.hpp
+++ b/esl/interaction/message.hpp
@@ -73,7 +73,7 @@ namespace esl::interaction {
         {
             (void)version;
 
-            BOOST_SERIALIZATION_BASE_OBJECT_NVP(header);
+            archive &BOOST_SERIALIZATION_BASE_OBJECT_NVP(header);
 
             archive &boost::serialization::make_nvp(
                 "type_code_t⟨type_code_⟩",
-- 
2.43.0


From 2103a217ca4dc62ba8b9fce1b36d7e2fcbbe2acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:14 +0000
Subject: [PATCH 54/56] fix: a quote read from an archive has no price

The price is the first alternative, which was skipped.
---
 esl/economics/markets/quote.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/esl/economics/markets/quote.hpp b/esl/economics/markets/quote.hpp
index 408244e..dcab70f 100644
--- a/esl/economics/markets/quote.hpp
+++ b/esl/economics/markets/quote.hpp
@@ -379,15 +379,12 @@ namespace esl::economics::markets {
 
             size_t index_ = 0;
             archive >> BOOST_SERIALIZATION_NVP(index_);
-            if(0 == index_) {
-                //exchange_rate re;
-                //archive >> boost::serialization::make_nvp("exchange_rate", re);
-                //type.emplace<0>(re);
-            } else if(1 == index_) {
-                price p;
-                archive >> boost::serialization::make_nvp("price", p);
-                type.emplace<price>(p);
-            }
+            //exchange_rate re;
+            //archive >> boost::serialization::make_nvp("exchange_rate", re);
+            //type.emplace<exchange_rate>(re);
+            price p;
+            archive >> boost::serialization::make_nvp("price", p);
+            type.emplace<price>(p);
         }
 
         template<class archive_t>
-- 
2.43.0


From 7bc864f282f336da7ada16451644798f63efe7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:15 +0000
Subject: [PATCH 55/56] fix: sets and lists can't be written to streams

Their iterators can't be added to.
---
 esl/data/representation.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/esl/data/representation.hpp b/esl/data/representation.hpp
index d6b0173..1e3d51a 100644
--- a/esl/data/representation.hpp
+++ b/esl/data/representation.hpp
@@ -28,6 +28,7 @@
 #ifndef ME_REPRESENTATION_HPP
 #define ME_REPRESENTATION_HPP
 
+#include <iterator>
 #include <map>
 #include <ostream>
 #include <set>
@@ -108,7 +109,7 @@ namespace std {
         stream << '{';
         if(!set.empty()) {
             stream << *set.cbegin();
-            for(auto i = set.cbegin() + 1; i != set.end(); ++i) {
+            for(auto i = std::next(set.cbegin()); i != set.end(); ++i) {
                 stream << ", " << *i;
             }
         }
@@ -163,7 +164,7 @@ namespace std {
         stream << '{';
         if(!set.empty()) {
             stream << *set.cbegin();
-            for(auto i = set.cbegin() + 1; i != set.end(); ++i) {
+            for(auto i = std::next(set.cbegin()); i != set.end(); ++i) {
                 stream << ", " << *i;
             }
         }
@@ -260,7 +261,7 @@ namespace std {
         stream << '[';
         if(!list.empty()) {
             stream << *list.cbegin();
-            for(auto i = list.cbegin() + 1; i != list.end(); ++i) {
+            for(auto i = std::next(list.cbegin()); i != list.end(); ++i) {
                 stream << " -> " << *i;
             }
         }
@@ -282,7 +283,7 @@ namespace std {
         stream << '[';
         if(!list.empty()) {
             stream << *list.cbegin();
-            for(auto i = list.cbegin() + 1; i != list.end(); ++i) {
+            for(auto i = std::next(list.cbegin()); i != list.end(); ++i) {
                 stream << " <-> " << *i;
             }
         }
-- 
2.43.0


From 622a747c86d6fb5334f0d901f038b77830356a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:15 +0000
Subject: [PATCH 56/56] fix: queues are written to streams by half

The number of elements left decreases while they are counted.
---
 esl/data/representation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esl/data/representation.hpp b/esl/data/representation.hpp
index 1e3d51a..6b9b615 100644
--- a/esl/data/representation.hpp
+++ b/esl/data/representation.hpp
@@ -238,7 +238,7 @@ namespace std {
         if(!queue.empty()){
             stream << queue.front();
             queue.pop();
-            for(size_t c = 0; c < queue.size(); ++c){
+            while(!queue.empty()){
                 stream << ", " << queue.front();
                 queue.pop();
             }
-- 
2.43.0

