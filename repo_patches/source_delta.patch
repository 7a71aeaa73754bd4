From ff0c6564921482717e2a49e8c7e0732480891f99 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:14 +0000
Subject: [PATCH 01/25] fix: peaks over threshold: extracting the fit no longer
 destroys the running sums

result() divided the running sum and sum of squares in place, so that samples
accumulated after the first extraction produced a meaningless fit.
---
 .../statistics/peaks_over_threshold.hpp         | 15 ++++++++-------
 .../weighted_peaks_over_threshold.hpp           | 17 +++++++++--------
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/include/boost/accumulators/statistics/peaks_over_threshold.hpp b/include/boost/accumulators/statistics/peaks_over_threshold.hpp
index de73c65..3bcf11c 100644
--- a/include/boost/accumulators/statistics/peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/peaks_over_threshold.hpp
@@ -164,15 +164,16 @@ namespace impl
 
                 std::size_t cnt = count(args);
 
-                this->mu_ = sign::value * numeric::fdiv(this->mu_, this->Nu_);
-                this->sigma2_ = numeric::fdiv(this->sigma2_, this->Nu_);
-                this->sigma2_ -= this->mu_ * this->mu_;
+                // mu_ and sigma2_ are running sums, they must not be modified here
+                float_type mu = sign::value * numeric::fdiv(this->mu_, this->Nu_);
+                float_type sigma2 = numeric::fdiv(this->sigma2_, this->Nu_);
+                sigma2 -= mu * mu;
 
                 float_type threshold_probability = numeric::fdiv(cnt - this->Nu_, cnt);
 
-                float_type tmp = numeric::fdiv(( this->mu_ - this->threshold_ )*( this->mu_ - this->threshold_ ), this->sigma2_);
+                float_type tmp = numeric::fdiv(( mu - this->threshold_ )*( mu - this->threshold_ ), sigma2);
                 float_type xi_hat = 0.5 * ( 1. - tmp );
-                float_type beta_hat = 0.5 * ( this->mu_ - this->threshold_ ) * ( 1. + tmp );
+                float_type beta_hat = 0.5 * ( mu - this->threshold_ ) * ( 1. + tmp );
                 float_type beta_bar = beta_hat * std::pow(1. - threshold_probability, xi_hat);
                 float_type u_bar = this->threshold_ - beta_bar * ( std::pow(1. - threshold_probability, -xi_hat) - 1.)/xi_hat;
                 this->fit_parameters_ = boost::make_tuple(u_bar, beta_bar, xi_hat);
@@ -198,8 +199,8 @@ namespace impl
 
     private:
         std::size_t Nu_;                     // number of samples larger than threshold
-        mutable float_type mu_;              // mean of Nu_ largest samples
-        mutable float_type sigma2_;          // variance of Nu_ largest samples
+        float_type mu_;                      // sum of Nu_ largest samples
+        float_type sigma2_;                  // sum of squares of Nu_ largest samples
         float_type threshold_;
         mutable result_type fit_parameters_; // boost::tuple that stores fit parameters
         mutable bool is_dirty_;
diff --git a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
index f3dc327..142fbd7 100644
--- a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
@@ -92,15 +92,16 @@ namespace impl
             {
                 this->is_dirty_ = false;
 
-                this->mu_ = this->sign_ * numeric::fdiv(this->mu_, this->w_sum_);
-                this->sigma2_ = numeric::fdiv(this->sigma2_, this->w_sum_);
-                this->sigma2_ -= this->mu_ * this->mu_;
+                // mu_ and sigma2_ are running sums, they must not be modified here
+                float_type mu = this->sign_ * numeric::fdiv(this->mu_, this->w_sum_);
+                float_type sigma2 = numeric::fdiv(this->sigma2_, this->w_sum_);
+                sigma2 -= mu * mu;
 
                 float_type threshold_probability = numeric::fdiv(sum_of_weights(args) - this->w_sum_, sum_of_weights(args));
 
-                float_type tmp = numeric::fdiv(( this->mu_ - this->threshold_ )*( this->mu_ - this->threshold_ ), this->sigma2_);
+                float_type tmp = numeric::fdiv(( mu - this->threshold_ )*( mu - this->threshold_ ), sigma2);
                 float_type xi_hat = 0.5 * ( 1. - tmp );
-                float_type beta_hat = 0.5 * ( this->mu_ - this->threshold_ ) * ( 1. + tmp );
+                float_type beta_hat = 0.5 * ( mu - this->threshold_ ) * ( 1. + tmp );
                 float_type beta_bar = beta_hat * std::pow(1. - threshold_probability, xi_hat);
                 float_type u_bar = this->threshold_ - beta_bar * ( std::pow(1. - threshold_probability, -xi_hat) - 1.)/xi_hat;
                 this->fit_parameters_ = boost::make_tuple(u_bar, beta_bar, xi_hat);
@@ -124,9 +125,9 @@ namespace impl
 
     private:
         short sign_;                         // for left tail fitting, mirror the extreme values
-        mutable float_type mu_;              // mean of samples above threshold
-        mutable float_type sigma2_;          // variance of samples above threshold
-        mutable float_type w_sum_;           // sum of weights of samples above threshold
+        float_type mu_;                      // weighted sum of samples above threshold
+        float_type sigma2_;                  // weighted sum of squares of samples above threshold
+        float_type w_sum_;                   // sum of weights of samples above threshold
         float_type threshold_;
         mutable result_type fit_parameters_; // boost::tuple that stores fit parameters
         mutable bool is_dirty_;
-- 
2.43.0


From c2c760c89761ce6a162736899d42673bd236766b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:44 +0000
Subject: [PATCH 02/25] fix: peaks over threshold with threshold probability:
 make extraction repeatable

result() accumulated into mu_ and sigma2_ again on every recomputation, flipped
the threshold probability of the left tail each time, and, once it had returned
NaN because the cache was too small, returned (0,0,0) when extracted again.
---
 .../statistics/peaks_over_threshold.hpp       | 36 ++++++++++--------
 .../weighted_peaks_over_threshold.hpp         | 37 ++++++++++---------
 2 files changed, 40 insertions(+), 33 deletions(-)

diff --git a/include/boost/accumulators/statistics/peaks_over_threshold.hpp b/include/boost/accumulators/statistics/peaks_over_threshold.hpp
index 3bcf11c..2c9bb38 100644
--- a/include/boost/accumulators/statistics/peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/peaks_over_threshold.hpp
@@ -247,8 +247,6 @@ namespace impl
         {
             if (this->is_dirty_)
             {
-                this->is_dirty_ = false;
-
                 std::size_t cnt = count(args);
 
                 // the n'th cached sample provides an approximate threshold value u
@@ -281,26 +279,32 @@ namespace impl
                 {
                     float_type u = *(tail(args).begin() + n - 1) * sign::value;
 
+                    // start from the initial values each time the fit is computed
+                    float_type mu = this->mu_;
+                    float_type sigma2 = this->sigma2_;
+
                     // compute mean and variance of samples above/under threshold value u
                     for (std::size_t i = 0; i < n; ++i)
                     {
-                        mu_ += *(tail(args).begin() + i);
-                        sigma2_ += *(tail(args).begin() + i) * (*(tail(args).begin() + i));
+                        mu += *(tail(args).begin() + i);
+                        sigma2 += *(tail(args).begin() + i) * (*(tail(args).begin() + i));
                     }
 
-                    this->mu_ = sign::value * numeric::fdiv(this->mu_, n);
-                    this->sigma2_ = numeric::fdiv(this->sigma2_, n);
-                    this->sigma2_ -= this->mu_ * this->mu_;
+                    mu = sign::value * numeric::fdiv(mu, n);
+                    sigma2 = numeric::fdiv(sigma2, n);
+                    sigma2 -= mu * mu;
 
-                    if (is_same<LeftRight, left>::value)
-                        this->threshold_probability_ = 1. - this->threshold_probability_;
+                    float_type threshold_probability = ( is_same<LeftRight, left>::value )
+                      ? 1. - this->threshold_probability_
+                      : this->threshold_probability_;
 
-                    float_type tmp = numeric::fdiv(( this->mu_ - u )*( this->mu_ - u ), this->sigma2_);
+                    float_type tmp = numeric::fdiv(( mu - u )*( mu - u ), sigma2);
                     float_type xi_hat = 0.5 * ( 1. - tmp );
-                    float_type beta_hat = 0.5 * ( this->mu_ - u ) * ( 1. + tmp );
-                    float_type beta_bar = beta_hat * std::pow(1. - threshold_probability_, xi_hat);
-                    float_type u_bar = u - beta_bar * ( std::pow(1. - threshold_probability_, -xi_hat) - 1.)/xi_hat;
+                    float_type beta_hat = 0.5 * ( mu - u ) * ( 1. + tmp );
+                    float_type beta_bar = beta_hat * std::pow(1. - threshold_probability, xi_hat);
+                    float_type u_bar = u - beta_bar * ( std::pow(1. - threshold_probability, -xi_hat) - 1.)/xi_hat;
                     this->fit_parameters_ = boost::make_tuple(u_bar, beta_bar, xi_hat);
+                    this->is_dirty_ = false;
                 }
             }
 
@@ -322,9 +326,9 @@ namespace impl
         }
 
     private:
-        mutable float_type mu_;                     // mean of samples above threshold u
-        mutable float_type sigma2_;                 // variance of samples above threshold u
-        mutable float_type threshold_probability_;
+        float_type mu_;                             // initial value of the sum of samples above threshold u
+        float_type sigma2_;                         // initial value of the sum of squares of samples above threshold u
+        float_type threshold_probability_;
         mutable result_type fit_parameters_;        // boost::tuple that stores fit parameters
         mutable bool is_dirty_;
     };
diff --git a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
index 142fbd7..907e6b1 100644
--- a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
@@ -174,20 +174,22 @@ namespace impl
         {
             if (this->is_dirty_)
             {
-                this->is_dirty_ = false;
-
                 float_type threshold = sum_of_weights(args)
                              * ( ( is_same<LeftRight, left>::value ) ? this->threshold_probability_ : 1. - this->threshold_probability_ );
 
                 std::size_t n = 0;
                 Weight sum = Weight(0);
 
+                // start from the initial values each time the fit is computed
+                float_type mu = this->mu_;
+                float_type sigma2 = this->sigma2_;
+
                 while (sum < threshold)
                 {
                     if (n < static_cast<std::size_t>(tail_weights(args).size()))
                     {
-                        mu_ += *(tail_weights(args).begin() + n) * *(tail(args).begin() + n);
-                        sigma2_ += *(tail_weights(args).begin() + n) * *(tail(args).begin() + n) * (*(tail(args).begin() + n));
+                        mu += *(tail_weights(args).begin() + n) * *(tail(args).begin() + n);
+                        sigma2 += *(tail_weights(args).begin() + n) * *(tail(args).begin() + n) * (*(tail(args).begin() + n));
                         sum += *(tail_weights(args).begin() + n);
                         n++;
                     }
@@ -214,20 +216,21 @@ namespace impl
                 float_type u = *(tail(args).begin() + n - 1) * this->sign_;
 
 
-                this->mu_ = this->sign_ * numeric::fdiv(this->mu_, sum);
-                this->sigma2_ = numeric::fdiv(this->sigma2_, sum);
-                this->sigma2_ -= this->mu_ * this->mu_;
+                mu = this->sign_ * numeric::fdiv(mu, sum);
+                sigma2 = numeric::fdiv(sigma2, sum);
+                sigma2 -= mu * mu;
 
-                if (is_same<LeftRight, left>::value)
-                    this->threshold_probability_ = 1. - this->threshold_probability_;
+                float_type threshold_probability = ( is_same<LeftRight, left>::value )
+                  ? 1. - this->threshold_probability_
+                  : this->threshold_probability_;
 
-                float_type tmp = numeric::fdiv(( this->mu_ - u )*( this->mu_ - u ), this->sigma2_);
+                float_type tmp = numeric::fdiv(( mu - u )*( mu - u ), sigma2);
                 float_type xi_hat = 0.5 * ( 1. - tmp );
-                float_type beta_hat = 0.5 * ( this->mu_ - u ) * ( 1. + tmp );
-                float_type beta_bar = beta_hat * std::pow(1. - threshold_probability_, xi_hat);
-                float_type u_bar = u - beta_bar * ( std::pow(1. - threshold_probability_, -xi_hat) - 1.)/xi_hat;
+                float_type beta_hat = 0.5 * ( mu - u ) * ( 1. + tmp );
+                float_type beta_bar = beta_hat * std::pow(1. - threshold_probability, xi_hat);
+                float_type u_bar = u - beta_bar * ( std::pow(1. - threshold_probability, -xi_hat) - 1.)/xi_hat;
                 this->fit_parameters_ = boost::make_tuple(u_bar, beta_bar, xi_hat);
-
+                this->is_dirty_ = false;
             }
 
             return this->fit_parameters_;
@@ -235,9 +238,9 @@ namespace impl
 
     private:
         short sign_;                                // for left tail fitting, mirror the extreme values
-        mutable float_type mu_;                     // mean of samples above threshold u
-        mutable float_type sigma2_;                 // variance of samples above threshold u
-        mutable float_type threshold_probability_;
+        float_type mu_;                             // initial value of the weighted sum of samples above threshold u
+        float_type sigma2_;                         // initial value of the weighted sum of squares of samples above threshold u
+        float_type threshold_probability_;
         mutable result_type fit_parameters_;        // boost::tuple that stores fit parameters
         mutable bool is_dirty_;
     };
-- 
2.43.0


From 63c60811acbce56cbba1d8868a56d71fbfad36e7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:44 +0000
Subject: [PATCH 03/25] fix: density based medians: do not carry the bin sum
 over to the next extraction

The running sum over the bins was kept between extractions, so the median was
wrong (or read before the first bin) when samples were added after an
extraction.
---
 include/boost/accumulators/statistics/median.hpp       | 10 ++++++----
 .../boost/accumulators/statistics/weighted_median.hpp  | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/boost/accumulators/statistics/median.hpp b/include/boost/accumulators/statistics/median.hpp
index 4d4118d..6474785 100644
--- a/include/boost/accumulators/statistics/median.hpp
+++ b/include/boost/accumulators/statistics/median.hpp
@@ -96,13 +96,15 @@ namespace impl
                 std::size_t cnt = count(args);
                 range_type histogram = density(args);
                 typename range_type::iterator it = histogram.begin();
-                while (this->sum < 0.5 * cnt)
+                // start from the initial value each time the median is computed
+                float_type sum = this->sum;
+                while (sum < 0.5 * cnt)
                 {
-                    this->sum += it->second * cnt;
+                    sum += it->second * cnt;
                     ++it;
                 }
                 --it;
-                float_type over = numeric::fdiv(this->sum - 0.5 * cnt, it->second * cnt);
+                float_type over = numeric::fdiv(sum - 0.5 * cnt, it->second * cnt);
                 this->median = it->first * over + (it + 1)->first * (1. - over);
             }
 
@@ -120,7 +122,7 @@ namespace impl
 
 
     private:
-        mutable float_type sum;
+        float_type sum;
         mutable bool is_dirty;
         mutable float_type median;
     };
diff --git a/include/boost/accumulators/statistics/weighted_median.hpp b/include/boost/accumulators/statistics/weighted_median.hpp
index 22224a8..a1e40a1 100644
--- a/include/boost/accumulators/statistics/weighted_median.hpp
+++ b/include/boost/accumulators/statistics/weighted_median.hpp
@@ -93,13 +93,15 @@ namespace impl
                 std::size_t cnt = count(args);
                 range_type histogram = weighted_density(args);
                 typename range_type::iterator it = histogram.begin();
-                while (this->sum < 0.5 * cnt)
+                // start from the initial value each time the median is computed
+                float_type sum = this->sum;
+                while (sum < 0.5 * cnt)
                 {
-                    this->sum += it->second * cnt;
+                    sum += it->second * cnt;
                     ++it;
                 }
                 --it;
-                float_type over = numeric::fdiv(this->sum - 0.5 * cnt, it->second * cnt);
+                float_type over = numeric::fdiv(sum - 0.5 * cnt, it->second * cnt);
                 this->median = it->first * over + (it + 1)->first * ( 1. - over );
             }
 
@@ -116,7 +118,7 @@ namespace impl
         }
 
     private:
-        mutable float_type sum;
+        float_type sum;
         mutable bool is_dirty;
         mutable float_type median;
     };
-- 
2.43.0


From bd338dc18cb51b926389a5b4c930e76d43cd31f5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:07 +0000
Subject: [PATCH 04/25] fix: density based medians: do not read past the
 overflow bin

When more than half of the samples lie above the range of the cached samples,
the median falls into the overflow bin, the last one, and the bin after it was
dereferenced.
---
 include/boost/accumulators/statistics/median.hpp          | 7 ++++++-
 include/boost/accumulators/statistics/weighted_median.hpp | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/boost/accumulators/statistics/median.hpp b/include/boost/accumulators/statistics/median.hpp
index 6474785..324798e 100644
--- a/include/boost/accumulators/statistics/median.hpp
+++ b/include/boost/accumulators/statistics/median.hpp
@@ -105,7 +105,12 @@ namespace impl
                 }
                 --it;
                 float_type over = numeric::fdiv(sum - 0.5 * cnt, it->second * cnt);
-                this->median = it->first * over + (it + 1)->first * (1. - over);
+                // the overflow bin is the last one, it has no right neighbour: like the
+                // underflow bin, it is taken to be as wide as the other bins
+                float_type upper = (it + 1 != histogram.end())
+                  ? (it + 1)->first
+                  : it->first + ( it->first - (it - 1)->first );
+                this->median = it->first * over + upper * ( 1. - over );
             }
 
             return this->median;
diff --git a/include/boost/accumulators/statistics/weighted_median.hpp b/include/boost/accumulators/statistics/weighted_median.hpp
index a1e40a1..07473f7 100644
--- a/include/boost/accumulators/statistics/weighted_median.hpp
+++ b/include/boost/accumulators/statistics/weighted_median.hpp
@@ -102,7 +102,12 @@ namespace impl
                 }
                 --it;
                 float_type over = numeric::fdiv(sum - 0.5 * cnt, it->second * cnt);
-                this->median = it->first * over + (it + 1)->first * ( 1. - over );
+                // the overflow bin is the last one, it has no right neighbour: like the
+                // underflow bin, it is taken to be as wide as the other bins
+                float_type upper = (it + 1 != histogram.end())
+                  ? (it + 1)->first
+                  : it->first + ( it->first - (it - 1)->first );
+                this->median = it->first * over + upper * ( 1. - over );
             }
 
             return this->median;
-- 
2.43.0


From 1ab2e8ec3163b050b066d94ccae78c0041e74d43 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:24 +0000
Subject: [PATCH 05/25] fix: P^2 cumulative distribution medians: interpolate
 inside the right cell

The distribution crosses 0.5 between (it - 1) and it, but the interpolation was
done between it and (it + 1), one cell too high, reading past the end of the
histogram when the crossing cell is the last one.
---
 include/boost/accumulators/statistics/median.hpp      | 11 +++++++++--
 .../boost/accumulators/statistics/weighted_median.hpp | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/boost/accumulators/statistics/median.hpp b/include/boost/accumulators/statistics/median.hpp
index 324798e..928733e 100644
--- a/include/boost/accumulators/statistics/median.hpp
+++ b/include/boost/accumulators/statistics/median.hpp
@@ -175,8 +175,15 @@ namespace impl
                 {
                     ++it;
                 }
-                float_type over = numeric::fdiv(it->second - 0.5, it->second - (it - 1)->second);
-                this->median = it->first * over + (it + 1)->first * ( 1. - over );
+                if (it == histogram.begin())
+                {
+                    this->median = it->first;
+                }
+                else
+                {
+                    float_type over = numeric::fdiv(it->second - 0.5, it->second - (it - 1)->second);
+                    this->median = (it - 1)->first * over + it->first * ( 1. - over );
+                }
             }
 
             return this->median;
diff --git a/include/boost/accumulators/statistics/weighted_median.hpp b/include/boost/accumulators/statistics/weighted_median.hpp
index 07473f7..8bcd010 100644
--- a/include/boost/accumulators/statistics/weighted_median.hpp
+++ b/include/boost/accumulators/statistics/weighted_median.hpp
@@ -172,8 +172,15 @@ namespace impl
                 {
                     ++it;
                 }
-                float_type over = numeric::fdiv(it->second - 0.5, it->second - (it - 1)->second);
-                this->median = it->first * over + (it + 1)->first * ( 1. - over );
+                if (it == histogram.begin())
+                {
+                    this->median = it->first;
+                }
+                else
+                {
+                    float_type over = numeric::fdiv(it->second - 0.5, it->second - (it - 1)->second);
+                    this->median = (it - 1)->first * over + it->first * ( 1. - over );
+                }
             }
 
             return this->median;
-- 
2.43.0


From ebac135bf5cc3c3d535e757648bc235ab1d86791 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:05 +0000
Subject: [PATCH 06/25] fix: weighted P^2 cumulative distribution: initialise
 the position of the last marker

The cumulation of the initial weights left out the last marker, so that the
largest sample was never reported with a cumulative probability of 1.
---
 .../accumulators/statistics/weighted_p_square_cumul_dist.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp b/include/boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp
index f8a44d6..dc6a272 100644
--- a/include/boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp
+++ b/include/boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp
@@ -111,7 +111,7 @@ namespace impl
                     }
 
                     // calculate correct initial actual positions
-                    for (std::size_t i = 1; i < b; ++i)
+                    for (std::size_t i = 1; i < b + 1; ++i)
                     {
                         this->actual_positions[i] += this->actual_positions[i - 1];
                     }
-- 
2.43.0


From 1d3ee6f220e2783203791398d87a90db4e47a790 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:05 +0000
Subject: [PATCH 07/25] fix: weighted P^2 cumulative distribution: aim at
 equiprobable cells

The desired position of marker i (counted from 0) is i/num_cells of the total
weight. Using (i-1) shifted all markers by one cell, so with unit weights the
result did not agree with the unweighted estimator.
---
 .../accumulators/statistics/weighted_p_square_cumul_dist.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp b/include/boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp
index dc6a272..24a666a 100644
--- a/include/boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp
+++ b/include/boost/accumulators/statistics/weighted_p_square_cumul_dist.hpp
@@ -153,7 +153,7 @@ namespace impl
                 for (std::size_t i = 1; i < b + 1; ++i)
                 {
                     this->desired_positions[i] = this->actual_positions[0]
-                                               + numeric::fdiv((i-1) * (sum_of_weights(args) - this->actual_positions[0]), b);
+                                               + numeric::fdiv(i * (sum_of_weights(args) - this->actual_positions[0]), b);
                 }
 
                 // adjust heights of markers 2 to num_cells if necessary
-- 
2.43.0


From 98118a3476d4e78424b007684c65231cbe64969c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:01 +0000
Subject: [PATCH 08/25] fix: coherent_tail_mean<left>: apply the whole
 correction term

The conditional operator swallowed the subtraction, so the left tail mean was
corrected with alpha instead of alpha - ceil(n alpha)/n as documented.
---
 include/boost/accumulators/statistics/tail_mean.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/accumulators/statistics/tail_mean.hpp b/include/boost/accumulators/statistics/tail_mean.hpp
index f56606d..50794b0 100644
--- a/include/boost/accumulators/statistics/tail_mean.hpp
+++ b/include/boost/accumulators/statistics/tail_mean.hpp
@@ -84,7 +84,7 @@ namespace impl
             return some_non_coherent_tail_mean(args)
                  + numeric::fdiv(quantile(args), n)
                  * (
-                     ( is_same<LeftRight, left>::value ) ? args[quantile_probability] : 1. - args[quantile_probability]
+                     ( ( is_same<LeftRight, left>::value ) ? args[quantile_probability] : 1. - args[quantile_probability] )
                      - numeric::fdiv(n, count(args))
                    );
         }
-- 
2.43.0


From e74968b60f1b61fe4e1598bc8605f7e0948ce91a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:01 +0000
Subject: [PATCH 09/25] fix: order statistics: a cache of exactly the required
 size is sufficient

The estimators need the n most extreme samples and are documented to require a
cache of at least n samples, but tail_quantile, tail_variate_means and
peaks_over_threshold_prob gave up when exactly n samples were cached, for
instance when all samples are cached and requested.
---
 .../boost/accumulators/statistics/peaks_over_threshold.hpp    | 4 ++--
 include/boost/accumulators/statistics/tail_quantile.hpp       | 4 ++--
 include/boost/accumulators/statistics/tail_variate_means.hpp  | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/accumulators/statistics/peaks_over_threshold.hpp b/include/boost/accumulators/statistics/peaks_over_threshold.hpp
index 2c9bb38..143029d 100644
--- a/include/boost/accumulators/statistics/peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/peaks_over_threshold.hpp
@@ -257,7 +257,7 @@ namespace impl
                 );
 
                 // If n is in a valid range, return result, otherwise return NaN or throw exception
-                if ( n >= static_cast<std::size_t>(tail(args).size()))
+                if ( n == 0 || n > static_cast<std::size_t>(tail(args).size()))
                 {
                     if (std::numeric_limits<float_type>::has_quiet_NaN)
                     {
@@ -270,7 +270,7 @@ namespace impl
                     else
                     {
                         std::ostringstream msg;
-                        msg << "index n = " << n << " is not in valid range [0, " << tail(args).size() << ")";
+                        msg << "index n = " << n << " is not in valid range [1, " << tail(args).size() << "]";
                         boost::throw_exception(std::runtime_error(msg.str()));
                         return boost::make_tuple(Sample(0), Sample(0), Sample(0));
                     }
diff --git a/include/boost/accumulators/statistics/tail_quantile.hpp b/include/boost/accumulators/statistics/tail_quantile.hpp
index ed1f6e6..90efbbc 100644
--- a/include/boost/accumulators/statistics/tail_quantile.hpp
+++ b/include/boost/accumulators/statistics/tail_quantile.hpp
@@ -77,7 +77,7 @@ namespace impl
             );
 
             // If n is in a valid range, return result, otherwise return NaN or throw exception
-            if ( n < static_cast<std::size_t>(tail(args).size()))
+            if ( n > 0 && n <= static_cast<std::size_t>(tail(args).size()))
             {
                // Note that the cached samples of the left are sorted in ascending order,
                // whereas the samples of the right tail are sorted in descending order
@@ -92,7 +92,7 @@ namespace impl
                 else
                 {
                     std::ostringstream msg;
-                    msg << "index n = " << n << " is not in valid range [0, " << tail(args).size() << ")";
+                    msg << "index n = " << n << " is not in valid range [1, " << tail(args).size() << "]";
                     boost::throw_exception(std::runtime_error(msg.str()));
                     return Sample(0);
                 }
diff --git a/include/boost/accumulators/statistics/tail_variate_means.hpp b/include/boost/accumulators/statistics/tail_variate_means.hpp
index efe9f7c..73051c0 100644
--- a/include/boost/accumulators/statistics/tail_variate_means.hpp
+++ b/include/boost/accumulators/statistics/tail_variate_means.hpp
@@ -104,7 +104,7 @@ namespace impl
             this->tail_means_.resize(num_variates, Sample(0));
 
             // If n is in a valid range, return result, otherwise return NaN or throw exception
-            if (n < static_cast<std::size_t>(tail(args).size()))
+            if (n <= static_cast<std::size_t>(tail(args).size()))
             {
                 this->tail_means_ = std::accumulate(
                     tail_variate(args).begin()
@@ -139,7 +139,7 @@ namespace impl
                 else
                 {
                     std::ostringstream msg;
-                    msg << "index n = " << n << " is not in valid range [0, " << tail(args).size() << ")";
+                    msg << "index n = " << n << " is not in valid range [0, " << tail(args).size() << "]";
                     boost::throw_exception(std::runtime_error(msg.str()));
                 }
             }
-- 
2.43.0


From 6e5108523e9474ea612fb624a82c1f58db98f2ba Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:01 +0000
Subject: [PATCH 10/25] fix: weighted_tail_variate_means: return NaN when the
 cached weights do not suffice

The loop neither left the function nor made progress in that case and never
terminated.
---
 .../statistics/weighted_tail_variate_means.hpp         | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/boost/accumulators/statistics/weighted_tail_variate_means.hpp b/include/boost/accumulators/statistics/weighted_tail_variate_means.hpp
index f096a93..6d6718e 100644
--- a/include/boost/accumulators/statistics/weighted_tail_variate_means.hpp
+++ b/include/boost/accumulators/statistics/weighted_tail_variate_means.hpp
@@ -120,6 +120,8 @@ namespace impl
             float_type threshold = sum_of_weights(args)
                              * ( ( is_same<LeftRight, left>::value ) ? args[quantile_probability] : 1. - args[quantile_probability] );
 
+            std::size_t num_variates = tail_variate(args).begin()->size();
+
             std::size_t n = 0;
             Weight sum = Weight(0);
 
@@ -134,11 +136,11 @@ namespace impl
                 {
                     if (std::numeric_limits<float_type>::has_quiet_NaN)
                     {
-                        std::fill(
-                            this->tail_means_.begin()
-                          , this->tail_means_.end()
+                        this->tail_means_.assign(
+                            num_variates
                           , std::numeric_limits<float_type>::quiet_NaN()
                         );
+                        return make_iterator_range(this->tail_means_);
                     }
                     else
                     {
@@ -149,8 +151,6 @@ namespace impl
                 }
             }
 
-            std::size_t num_variates = tail_variate(args).begin()->size();
-
             this->tail_means_.clear();
             this->tail_means_.resize(num_variates, Sample(0));
 
-- 
2.43.0


From e3081f1d2c4a35d836070c2aed4153bdf774699d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:16 +0000
Subject: [PATCH 11/25] fix: covariance: give the initial matrix the shape of
 the updates

The updates compute the outer product of the variates with the samples, but the
initial value was the outer product of the samples with the variates, so that
vector samples and vector variates of different lengths could not be used.
---
 include/boost/accumulators/statistics/covariance.hpp          | 4 ++--
 include/boost/accumulators/statistics/weighted_covariance.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/accumulators/statistics/covariance.hpp b/include/boost/accumulators/statistics/covariance.hpp
index d80a85e..90abba4 100644
--- a/include/boost/accumulators/statistics/covariance.hpp
+++ b/include/boost/accumulators/statistics/covariance.hpp
@@ -123,8 +123,8 @@ namespace impl
         covariance_impl(Args const &args)
           : cov_(
                 numeric::outer_product(
-                    numeric::fdiv(args[sample | Sample()], (std::size_t)1)
-                  , numeric::fdiv(args[parameter::keyword<VariateTag>::get() | VariateType()], (std::size_t)1)
+                    numeric::fdiv(args[parameter::keyword<VariateTag>::get() | VariateType()], (std::size_t)1)
+                  , numeric::fdiv(args[sample | Sample()], (std::size_t)1)
                 )
             )
         {
diff --git a/include/boost/accumulators/statistics/weighted_covariance.hpp b/include/boost/accumulators/statistics/weighted_covariance.hpp
index e423a22..f529cf0 100644
--- a/include/boost/accumulators/statistics/weighted_covariance.hpp
+++ b/include/boost/accumulators/statistics/weighted_covariance.hpp
@@ -66,9 +66,9 @@ namespace impl
         weighted_covariance_impl(Args const &args)
           : cov_(
                 numeric::outer_product(
-                    numeric::fdiv(args[sample | Sample()], (std::size_t)1)
+                    numeric::fdiv(args[parameter::keyword<VariateTag>::get() | VariateType()], (std::size_t)1)
                       * numeric::one<Weight>::value
-                  , numeric::fdiv(args[parameter::keyword<VariateTag>::get() | VariateType()], (std::size_t)1)
+                  , numeric::fdiv(args[sample | Sample()], (std::size_t)1)
                       * numeric::one<Weight>::value
                 )
             )
-- 
2.43.0


From 554257ba577de68413a1388fae5051cda672a136 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:47 +0000
Subject: [PATCH 12/25] fix: rolling window: write the buffer to an archive as
 one block

load() reads one binary block, but save() wrote two when the circular buffer was
wrapped around. In a text archive each block is encoded on its own, so loading a
wrapped window restored garbage. Also allocate only as many elements as needed.
---
 .../accumulators/statistics/rolling_window.hpp      | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/boost/accumulators/statistics/rolling_window.hpp b/include/boost/accumulators/statistics/rolling_window.hpp
index a43ecdf..3242f56 100644
--- a/include/boost/accumulators/statistics/rolling_window.hpp
+++ b/include/boost/accumulators/statistics/rolling_window.hpp
@@ -8,6 +8,7 @@
 #ifndef BOOST_ACCUMULATORS_STATISTICS_ROLLING_WINDOW_HPP_EAN_26_12_2008
 #define BOOST_ACCUMULATORS_STATISTICS_ROLLING_WINDOW_HPP_EAN_26_12_2008
 
+#include <algorithm>
 #include <cstddef>
 #include <boost/version.hpp>
 #include <boost/assert.hpp>
@@ -32,10 +33,12 @@ void save(Archive& ar, const circular_buffer<T>& b, const unsigned int /* versio
     typename circular_buffer<T>::size_type size = b.size();
     ar << b.capacity();
     ar << size;
-    const typename circular_buffer<T>::const_array_range one = b.array_one();
-    const typename circular_buffer<T>::const_array_range two = b.array_two();
-    ar.save_binary(one.first, one.second*sizeof(T));
-    ar.save_binary(two.first, two.second*sizeof(T));
+    // load() reads the elements as one block, so they have to be written as one
+    // block, even if the buffer is wrapped around and not contiguous in memory.
+    const typename circular_buffer<T>::pointer buff = new T[size];
+    std::copy(b.begin(), b.end(), buff);
+    ar.save_binary(buff, size*sizeof(T));
+    delete[] buff;
 }
 
 template <class Archive, class T>
@@ -47,7 +50,7 @@ void load(Archive& ar, circular_buffer<T>& b, const unsigned int /* version */)
     b.set_capacity(capacity);
     ar >> size;
     b.clear();
-    const typename circular_buffer<T>::pointer buff = new T[size*sizeof(T)];
+    const typename circular_buffer<T>::pointer buff = new T[size];
     ar.load_binary(buff, size*sizeof(T));
     b.insert(b.begin(), buff, buff+size);
     delete[] buff;
-- 
2.43.0


From c20c497702e499fbf6b268fe7b5780bf1e9689ca Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:00 +0000
Subject: [PATCH 13/25] fix: rolling_window: make the feature usable (two-phase
 lookup)

---
 include/boost/accumulators/statistics/rolling_window.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/accumulators/statistics/rolling_window.hpp b/include/boost/accumulators/statistics/rolling_window.hpp
index 3242f56..8081820 100644
--- a/include/boost/accumulators/statistics/rolling_window.hpp
+++ b/include/boost/accumulators/statistics/rolling_window.hpp
@@ -158,7 +158,8 @@ namespace impl
         template<typename Args>
         result_type result(Args const &args) const
         {
-            return rolling_window_plus1(args).advance_begin(is_rolling_window_plus1_full(args));
+            extractor<tag::rolling_window_plus1> const some_rolling_window_plus1 = {};
+            return some_rolling_window_plus1(args).advance_begin(is_rolling_window_plus1_full(args));
         }
         
         // serialization is done by accumulators it depends on
-- 
2.43.0


From acb3febb150a5c6f6c555e99cba8dfa19d40935f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:54 +0000
Subject: [PATCH 14/25] fix: stateless accumulators: sets containing them can
 be archived

---
 include/boost/accumulators/statistics/error_of_mean.hpp       | 4 ++++
 include/boost/accumulators/statistics/weighted_kurtosis.hpp   | 4 ++++
 include/boost/accumulators/statistics/weighted_mean.hpp       | 4 ++++
 include/boost/accumulators/statistics/weighted_median.hpp     | 4 ++++
 include/boost/accumulators/statistics/weighted_skewness.hpp   | 4 ++++
 include/boost/accumulators/statistics/weighted_tail_mean.hpp  | 4 ++++
 .../boost/accumulators/statistics/weighted_tail_quantile.hpp  | 4 ++++
 include/boost/accumulators/statistics/weighted_variance.hpp   | 4 ++++
 8 files changed, 32 insertions(+)

diff --git a/include/boost/accumulators/statistics/error_of_mean.hpp b/include/boost/accumulators/statistics/error_of_mean.hpp
index 7cd923d..b96d5d8 100644
--- a/include/boost/accumulators/statistics/error_of_mean.hpp
+++ b/include/boost/accumulators/statistics/error_of_mean.hpp
@@ -40,6 +40,10 @@ namespace impl
             extractor<Variance> const variance = {};
             return sqrt(numeric::fdiv(variance(args), count(args) - 1));
         }
+
+        // serialization is done by accumulators it depends on
+        template<class Archive>
+        void serialize(Archive & /* ar */, const unsigned int /* file_version */) {}
     };
 
 } // namespace impl
diff --git a/include/boost/accumulators/statistics/weighted_kurtosis.hpp b/include/boost/accumulators/statistics/weighted_kurtosis.hpp
index 3fd4ed7..cd40870 100644
--- a/include/boost/accumulators/statistics/weighted_kurtosis.hpp
+++ b/include/boost/accumulators/statistics/weighted_kurtosis.hpp
@@ -70,6 +70,10 @@ namespace impl
                         * ( accumulators::weighted_moment<2>(args) - weighted_mean(args) * weighted_mean(args) )
                    ) - 3.;
         }
+
+        // serialization is done by accumulators it depends on
+        template<class Archive>
+        void serialize(Archive & /* ar */, const unsigned int /* file_version */) {}
     };
 
 } // namespace impl
diff --git a/include/boost/accumulators/statistics/weighted_mean.hpp b/include/boost/accumulators/statistics/weighted_mean.hpp
index 3214af6..5b8d2bd 100644
--- a/include/boost/accumulators/statistics/weighted_mean.hpp
+++ b/include/boost/accumulators/statistics/weighted_mean.hpp
@@ -55,6 +55,10 @@ namespace impl
 
             return numeric::fdiv(some_weighted_sum(args), sum_of_weights(args));
         }
+
+        // serialization is done by accumulators it depends on
+        template<class Archive>
+        void serialize(Archive & /* ar */, const unsigned int /* file_version */) {}
     };
 
     ///////////////////////////////////////////////////////////////////////////////
diff --git a/include/boost/accumulators/statistics/weighted_median.hpp b/include/boost/accumulators/statistics/weighted_median.hpp
index 8bcd010..6773026 100644
--- a/include/boost/accumulators/statistics/weighted_median.hpp
+++ b/include/boost/accumulators/statistics/weighted_median.hpp
@@ -49,6 +49,10 @@ namespace impl
         {
             return weighted_p_square_quantile_for_median(args);
         }
+
+        // serialization is done by accumulators it depends on
+        template<class Archive>
+        void serialize(Archive & /* ar */, const unsigned int /* file_version */) {}
     };
 
     ///////////////////////////////////////////////////////////////////////////////
diff --git a/include/boost/accumulators/statistics/weighted_skewness.hpp b/include/boost/accumulators/statistics/weighted_skewness.hpp
index a3ac387..4964f74 100644
--- a/include/boost/accumulators/statistics/weighted_skewness.hpp
+++ b/include/boost/accumulators/statistics/weighted_skewness.hpp
@@ -66,6 +66,10 @@ namespace impl
                       * std::sqrt( accumulators::weighted_moment<2>(args) - weighted_mean(args) * weighted_mean(args) )
                    );
         }
+
+        // serialization is done by accumulators it depends on
+        template<class Archive>
+        void serialize(Archive & /* ar */, const unsigned int /* file_version */) {}
     };
 
 } // namespace impl
diff --git a/include/boost/accumulators/statistics/weighted_tail_mean.hpp b/include/boost/accumulators/statistics/weighted_tail_mean.hpp
index bae8530..45d40fc 100644
--- a/include/boost/accumulators/statistics/weighted_tail_mean.hpp
+++ b/include/boost/accumulators/statistics/weighted_tail_mean.hpp
@@ -130,6 +130,10 @@ namespace impl
               , sum
             );
         }
+
+        // serialization is done by accumulators it depends on
+        template<class Archive>
+        void serialize(Archive & /* ar */, const unsigned int /* file_version */) {}
     };
 
 } // namespace impl
diff --git a/include/boost/accumulators/statistics/weighted_tail_quantile.hpp b/include/boost/accumulators/statistics/weighted_tail_quantile.hpp
index b143457..e3b0c74 100644
--- a/include/boost/accumulators/statistics/weighted_tail_quantile.hpp
+++ b/include/boost/accumulators/statistics/weighted_tail_quantile.hpp
@@ -108,6 +108,10 @@ namespace impl
             // whereas the samples of the right tail are sorted in descending order
             return *(boost::begin(tail(args)) + n - 1);
         }
+
+        // serialization is done by accumulators it depends on
+        template<class Archive>
+        void serialize(Archive & /* ar */, const unsigned int /* file_version */) {}
     };
 } // namespace impl
 
diff --git a/include/boost/accumulators/statistics/weighted_variance.hpp b/include/boost/accumulators/statistics/weighted_variance.hpp
index f7d2b6e..eb8ae26 100644
--- a/include/boost/accumulators/statistics/weighted_variance.hpp
+++ b/include/boost/accumulators/statistics/weighted_variance.hpp
@@ -52,6 +52,10 @@ namespace impl
             result_type tmp = some_mean(args);
             return accumulators::weighted_moment<2>(args) - tmp * tmp;
         }
+
+        // serialization is done by accumulators it depends on
+        template<class Archive>
+        void serialize(Archive & /* ar */, const unsigned int /* file_version */) {}
     };
 
     //! Iterative calculation of variance of weighted samples.
-- 
2.43.0


From 0c62a267d696ffb4796cb71e542be0e054a47d89 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:54 +0000
Subject: [PATCH 15/25] fix: tail_variate: sets caching variates or weights of
 the tail can be archived

---
 include/boost/accumulators/statistics/tail_variate.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/accumulators/statistics/tail_variate.hpp b/include/boost/accumulators/statistics/tail_variate.hpp
index 6885ece..b09aca9 100644
--- a/include/boost/accumulators/statistics/tail_variate.hpp
+++ b/include/boost/accumulators/statistics/tail_variate.hpp
@@ -70,6 +70,7 @@ namespace impl
             );
         }
 
+    public:
         // make this accumulator serializeable
         template<class Archive>
         void serialize(Archive & ar, const unsigned int file_version)
-- 
2.43.0


From 98e232e3b6b73816f57bfb3f00f61f2dbed3c148 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:54 +0000
Subject: [PATCH 16/25] fix: weighted peaks over threshold: archive the whole
 state

---
 .../weighted_peaks_over_threshold.hpp         | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
index 907e6b1..1eea623 100644
--- a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
@@ -118,8 +118,11 @@ namespace impl
             ar & sign_;
             ar & mu_;
             ar & sigma2_;
+            ar & w_sum_;
             ar & threshold_;
-            ar & fit_parameters_;
+            ar & get<0>(fit_parameters_);
+            ar & get<1>(fit_parameters_);
+            ar & get<2>(fit_parameters_);
             ar & is_dirty_;
         }
 
@@ -236,6 +239,21 @@ namespace impl
             return this->fit_parameters_;
         }
 
+        // make this accumulator serializeable
+        // TODO: do we need to split to load/save and verify that threshold did not change?
+        template<class Archive>
+        void serialize(Archive & ar, const unsigned int file_version)
+        {
+            ar & sign_;
+            ar & mu_;
+            ar & sigma2_;
+            ar & threshold_probability_;
+            ar & get<0>(fit_parameters_);
+            ar & get<1>(fit_parameters_);
+            ar & get<2>(fit_parameters_);
+            ar & is_dirty_;
+        }
+
     private:
         short sign_;                                // for left tail fitting, mirror the extreme values
         float_type mu_;                             // initial value of the weighted sum of samples above threshold u
-- 
2.43.0


From f1df3392ba2d2bb34dd8f22e04e4283ad158273a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:12 +0000
Subject: [PATCH 17/25] fix: drop: release the dependencies of the accumulator
 in the set

---
 include/boost/accumulators/framework/accumulator_set.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/boost/accumulators/framework/accumulator_set.hpp b/include/boost/accumulators/framework/accumulator_set.hpp
index e89e5e9..a5e720d 100644
--- a/include/boost/accumulators/framework/accumulator_set.hpp
+++ b/include/boost/accumulators/framework/accumulator_set.hpp
@@ -430,15 +430,11 @@ struct accumulator_set
         typedef typename apply<Feature>::type the_accumulator;
         BOOST_MPL_ASSERT((detail::contains_feature_of<Features, the_accumulator>));
 
-        typedef
-            typename feature_of<typename as_feature<Feature>::type>::type
-        the_feature;
-
         (*fusion::find_if<detail::matches_feature<Feature> >(this->accumulators))
             .drop(boost::accumulators::accumulator = *this);
 
         // Also drop accumulators that this feature depends on
-        typedef typename the_feature::dependencies dependencies;
+        typedef typename the_accumulator::feature_tag::dependencies dependencies;
         this->template visit_if<detail::contains_feature_of_<dependencies> >(
             detail::make_drop_visitor(boost::accumulators::accumulator = *this)
         );
-- 
2.43.0


From 8119d0a6fc61fb424677eac2204ee41175f160e9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:35 +0000
Subject: [PATCH 18/25] fix: accumulator_set: update alternative and weighted
 implementations after what they depend on

---
 .../accumulators/framework/depends_on.hpp     | 62 ++++++++++++++++++-
 1 file changed, 61 insertions(+), 1 deletion(-)

diff --git a/include/boost/accumulators/framework/depends_on.hpp b/include/boost/accumulators/framework/depends_on.hpp
index e0036ac..e9196ba 100644
--- a/include/boost/accumulators/framework/depends_on.hpp
+++ b/include/boost/accumulators/framework/depends_on.hpp
@@ -9,6 +9,7 @@
 #define BOOST_ACCUMULATORS_FRAMEWORK_DEPENDS_ON_HPP_EAN_28_10_2005
 
 #include <boost/version.hpp>
+#include <boost/mpl/at.hpp>
 #include <boost/mpl/end.hpp>
 #include <boost/mpl/map.hpp>
 #include <boost/mpl/set.hpp>
@@ -22,6 +23,7 @@
 #include <boost/mpl/vector.hpp>
 #include <boost/mpl/inherit.hpp>
 #include <boost/mpl/identity.hpp>
+#include <boost/mpl/push_back.hpp>
 #include <boost/mpl/equal_to.hpp>
 #include <boost/mpl/contains.hpp>
 #include <boost/mpl/transform.hpp>
@@ -404,6 +406,55 @@ namespace boost { namespace accumulators
         {
         };
 
+        ///////////////////////////////////////////////////////////////////////////
+        // append_with_dependencies
+        //   append a feature to a vector, after the features that provide what it depends
+        //   on. (The sort in make_accumulator_tuple goes by the default implementation of
+        //   each feature, it doesn't see the dependencies of the alternative or weighted
+        //   implementation that stands in for it.)
+        template<typename Vector, typename Feature, typename FeatureMap, bool is_done = mpl::contains<Vector, Feature>::value>
+        struct append_with_dependencies
+        {
+            typedef Vector type;
+        };
+
+        template<typename FeatureMap>
+        struct append_feature
+        {
+            template<typename Vector, typename Feature>
+            struct apply
+              : append_with_dependencies<Vector, Feature, FeatureMap>
+            {
+            };
+        };
+
+        template<typename FeatureMap>
+        struct append_dependency
+        {
+            template<typename Vector, typename Feature>
+            struct apply
+              : append_with_dependencies<
+                    Vector
+                  , typename mpl::at<FeatureMap, typename feature_of<Feature>::type>::type
+                  , FeatureMap
+                >
+            {
+            };
+        };
+
+        template<typename Vector, typename Feature, typename FeatureMap>
+        struct append_with_dependencies<Vector, Feature, FeatureMap, false>
+          : mpl::push_back<
+                typename mpl::fold<
+                    typename Feature::dependencies
+                  , Vector
+                  , append_dependency<FeatureMap>
+                >::type
+              , Feature
+            >
+        {
+        };
+
         template<typename Features, typename Sample, typename Weight>
         struct make_accumulator_tuple
         {
@@ -445,10 +496,19 @@ namespace boost { namespace accumulators
                 >::type
             sorted_feature_vector;
 
+            // no feature may come before the ones it depends on
+            typedef
+                typename mpl::fold<
+                    sorted_feature_vector
+                  , mpl::vector0<>
+                  , append_feature<feature_map_with_dependencies>
+                >::type
+            ordered_feature_vector;
+
             // From the vector of features, construct a vector of accumulators
             typedef
                 typename mpl::transform<
-                    sorted_feature_vector
+                    ordered_feature_vector
                   , to_accumulator<mpl::_1, Sample, Weight>
                 >::type
             type;
-- 
2.43.0


From 9acd883ca1233040503fb276310cff464b24e896 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:58 +0000
Subject: [PATCH 19/25] fix: a temporary passed by name is not consumed by the
 first accumulator that stores it

---
 include/boost/accumulators/statistics/moment.hpp           | 2 +-
 include/boost/accumulators/statistics/rolling_moment.hpp   | 2 +-
 include/boost/accumulators/statistics/rolling_sum.hpp      | 2 +-
 include/boost/accumulators/statistics/rolling_variance.hpp | 2 +-
 include/boost/accumulators/statistics/rolling_window.hpp   | 2 +-
 include/boost/accumulators/statistics/sum.hpp              | 2 +-
 include/boost/accumulators/statistics/sum_kahan.hpp        | 2 +-
 include/boost/accumulators/statistics/tail.hpp             | 2 +-
 include/boost/accumulators/statistics/tail_variate.hpp     | 2 +-
 9 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/boost/accumulators/statistics/moment.hpp b/include/boost/accumulators/statistics/moment.hpp
index aeca6a9..81ee3bb 100644
--- a/include/boost/accumulators/statistics/moment.hpp
+++ b/include/boost/accumulators/statistics/moment.hpp
@@ -59,7 +59,7 @@ namespace impl
 
         template<typename Args>
         moment_impl(Args const &args)
-          : sum(args[sample | Sample()])
+          : sum(static_cast<Sample const &>(args[sample | Sample()]))
         {
         }
 
diff --git a/include/boost/accumulators/statistics/rolling_moment.hpp b/include/boost/accumulators/statistics/rolling_moment.hpp
index 28ea5b5..3ad2ae9 100644
--- a/include/boost/accumulators/statistics/rolling_moment.hpp
+++ b/include/boost/accumulators/statistics/rolling_moment.hpp
@@ -38,7 +38,7 @@ namespace impl
 
         template<typename Args>
         rolling_moment_impl(Args const &args)
-          : sum_(args[sample | Sample()])
+          : sum_(static_cast<Sample const &>(args[sample | Sample()]))
         {
         }
 
diff --git a/include/boost/accumulators/statistics/rolling_sum.hpp b/include/boost/accumulators/statistics/rolling_sum.hpp
index c511460..8ad4b1e 100644
--- a/include/boost/accumulators/statistics/rolling_sum.hpp
+++ b/include/boost/accumulators/statistics/rolling_sum.hpp
@@ -32,7 +32,7 @@ namespace impl
 
         template<typename Args>
         rolling_sum_impl(Args const &args)
-          : sum_(args[sample | Sample()])
+          : sum_(static_cast<Sample const &>(args[sample | Sample()]))
         {}
 
         template<typename Args>
diff --git a/include/boost/accumulators/statistics/rolling_variance.hpp b/include/boost/accumulators/statistics/rolling_variance.hpp
index 249d5c1..ffd6c48 100644
--- a/include/boost/accumulators/statistics/rolling_variance.hpp
+++ b/include/boost/accumulators/statistics/rolling_variance.hpp
@@ -121,7 +121,7 @@ namespace impl
         template<typename Args>
         void operator()(Args const &args)
         {
-            Sample added_sample = args[sample];
+            Sample added_sample = static_cast<Sample const &>(args[sample]);
 
             result_type mean = immediate_rolling_mean(args);
             sum_of_squares_ += (added_sample-mean)*(added_sample-previous_mean_);
diff --git a/include/boost/accumulators/statistics/rolling_window.hpp b/include/boost/accumulators/statistics/rolling_window.hpp
index 8081820..ecebeac 100644
--- a/include/boost/accumulators/statistics/rolling_window.hpp
+++ b/include/boost/accumulators/statistics/rolling_window.hpp
@@ -110,7 +110,7 @@ namespace impl
         template<typename Args>
         void operator ()(Args const &args)
         {
-            this->buffer_.push_back(args[sample]);
+            this->buffer_.push_back(static_cast<Sample const &>(args[sample]));
         }
 
         bool full() const
diff --git a/include/boost/accumulators/statistics/sum.hpp b/include/boost/accumulators/statistics/sum.hpp
index c8beb55..106b16a 100644
--- a/include/boost/accumulators/statistics/sum.hpp
+++ b/include/boost/accumulators/statistics/sum.hpp
@@ -35,7 +35,7 @@ namespace impl
 
         template<typename Args>
         sum_impl(Args const &args)
-          : sum(args[parameter::keyword<Tag>::get() | Sample()])
+          : sum(static_cast<Sample const &>(args[parameter::keyword<Tag>::get() | Sample()]))
         {
         }
 
diff --git a/include/boost/accumulators/statistics/sum_kahan.hpp b/include/boost/accumulators/statistics/sum_kahan.hpp
index b5e9092..2a2be19 100644
--- a/include/boost/accumulators/statistics/sum_kahan.hpp
+++ b/include/boost/accumulators/statistics/sum_kahan.hpp
@@ -43,7 +43,7 @@ struct sum_kahan_impl
     */
     template<typename Args>
     sum_kahan_impl(Args const & args)
-      : sum(args[parameter::keyword<Tag>::get() | Sample()]),
+      : sum(static_cast<Sample const &>(args[parameter::keyword<Tag>::get() | Sample()])),
         compensation(boost::numeric_cast<Sample>(0.0))
     {
     }
diff --git a/include/boost/accumulators/statistics/tail.hpp b/include/boost/accumulators/statistics/tail.hpp
index 40dab37..6bc792f 100644
--- a/include/boost/accumulators/statistics/tail.hpp
+++ b/include/boost/accumulators/statistics/tail.hpp
@@ -238,7 +238,7 @@ namespace impl
         void assign(Args const &args, std::size_t index)
         {
             BOOST_ASSERT(index < this->samples.size());
-            this->samples[index] = args[sample];
+            this->samples[index] = static_cast<Sample const &>(args[sample]);
             std::push_heap(this->indices.begin(), this->indices.end(), indirect_cmp(this->samples));
             this->is_sorted = false;
             // Tell the tail variates to store their values also
diff --git a/include/boost/accumulators/statistics/tail_variate.hpp b/include/boost/accumulators/statistics/tail_variate.hpp
index b09aca9..ad2c86c 100644
--- a/include/boost/accumulators/statistics/tail_variate.hpp
+++ b/include/boost/accumulators/statistics/tail_variate.hpp
@@ -48,7 +48,7 @@ namespace impl
         template<typename Args>
         void assign(Args const &args, std::size_t index)
         {
-            this->variates[index] = args[parameter::keyword<VariateTag>::get()];
+            this->variates[index] = static_cast<VariateType const &>(args[parameter::keyword<VariateTag>::get()]);
         }
 
         template<typename Args>
-- 
2.43.0


From 2c396dc04d03f70e8b762fe1789b4f6aef4b9079 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:36 +0000
Subject: [PATCH 20/25] fix: tail: droppable tail variates and weights are
 stored with their samples

---
 include/boost/accumulators/statistics/tail.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/accumulators/statistics/tail.hpp b/include/boost/accumulators/statistics/tail.hpp
index 6bc792f..24f44b5 100644
--- a/include/boost/accumulators/statistics/tail.hpp
+++ b/include/boost/accumulators/statistics/tail.hpp
@@ -228,7 +228,7 @@ namespace impl
             template<typename T>
             struct apply
               : detail::is_tail_variate_feature<
-                    typename detail::feature_tag<T>::type
+                    typename detail::undroppable<typename detail::feature_tag<T>::type>::type
                   , LeftRight
                 >
             {};
-- 
2.43.0


From e99c382b8e74e8ac104cbcdd49ca93176b2bbc6e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:36 +0000
Subject: [PATCH 21/25] fix: with_cached_result: no cached result before the
 accumulator is dropped

---
 .../accumulators/droppable_accumulator.hpp         | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/boost/accumulators/framework/accumulators/droppable_accumulator.hpp b/include/boost/accumulators/framework/accumulators/droppable_accumulator.hpp
index 21fdb51..a349c23 100644
--- a/include/boost/accumulators/framework/accumulators/droppable_accumulator.hpp
+++ b/include/boost/accumulators/framework/accumulators/droppable_accumulator.hpp
@@ -192,12 +192,14 @@ namespace boost { namespace accumulators
         with_cached_result(Args const &args)
           : Accumulator(args)
           , cache()
+          , has_result_(false)
         {
         }
 
         with_cached_result(with_cached_result const &that)
           : Accumulator(*static_cast<Accumulator const *>(&that))
           , cache()
+          , has_result_(false)
         {
             if(that.has_result())
             {
@@ -207,10 +209,6 @@ namespace boost { namespace accumulators
 
         ~with_cached_result()
         {
-            // Since this is a base class of droppable_accumulator_base,
-            // this destructor is called before any of droppable_accumulator_base's
-            // members get cleaned up, including is_dropped, so the following
-            // call to has_result() is valid.
             if(this->has_result())
             {
                 this->get().~result_type();
@@ -237,6 +235,7 @@ namespace boost { namespace accumulators
         void set(result_type const &r)
         {
             ::new(this->cache.address()) result_type(r);
+            this->has_result_ = true;
         }
 
         result_type const &get() const
@@ -246,12 +245,13 @@ namespace boost { namespace accumulators
 
         bool has_result() const
         {
-            typedef with_cached_result<Accumulator> this_type;
-            typedef droppable_accumulator_base<this_type> derived_type;
-            return static_cast<derived_type const *>(this)->is_dropped();
+            // Not the same as is_dropped(): an accumulator that is being constructed
+            // has no references yet, and no result either.
+            return this->has_result_;
         }
 
         aligned_storage<sizeof(result_type)> cache;
+        bool has_result_;
     };
 
     namespace tag
-- 
2.43.0


From b6a97c0d313c30fc9f613ec1023bea1e12107e5d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:35 +0000
Subject: [PATCH 22/25] fix: peaks_over_threshold: left tail of unsigned
 samples

The left tail is handled by negating samples and threshold, which wraps
around for unsigned sample types. Convert to the floating-point type first.
---
 .../boost/accumulators/statistics/peaks_over_threshold.hpp  | 6 +++---
 .../statistics/weighted_peaks_over_threshold.hpp            | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/accumulators/statistics/peaks_over_threshold.hpp b/include/boost/accumulators/statistics/peaks_over_threshold.hpp
index 143029d..3bb0506 100644
--- a/include/boost/accumulators/statistics/peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/peaks_over_threshold.hpp
@@ -136,7 +136,7 @@ namespace impl
           : Nu_(0)
           , mu_(sign::value * numeric::fdiv(args[sample | Sample()], (std::size_t)1))
           , sigma2_(numeric::fdiv(args[sample | Sample()], (std::size_t)1))
-          , threshold_(sign::value * args[pot_threshold_value])
+          , threshold_(sign::value * numeric::fdiv(args[pot_threshold_value], (std::size_t)1))
           , fit_parameters_(boost::make_tuple(0., 0., 0.))
           , is_dirty_(true)
         {
@@ -147,7 +147,7 @@ namespace impl
         {
             this->is_dirty_ = true;
 
-            if (sign::value * args[sample] > this->threshold_)
+            if (sign::value * numeric::fdiv(args[sample], (std::size_t)1) > this->threshold_)
             {
                 this->mu_ += args[sample];
                 this->sigma2_ += args[sample] * args[sample];
@@ -277,7 +277,7 @@ namespace impl
                 }
                 else
                 {
-                    float_type u = *(tail(args).begin() + n - 1) * sign::value;
+                    float_type u = sign::value * numeric::fdiv(*(tail(args).begin() + n - 1), (std::size_t)1);
 
                     // start from the initial values each time the fit is computed
                     float_type mu = this->mu_;
diff --git a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
index 1eea623..2ad2dfb 100644
--- a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
@@ -66,7 +66,7 @@ namespace impl
           , mu_(sign_ * numeric::fdiv(args[sample | Sample()], (std::size_t)1))
           , sigma2_(numeric::fdiv(args[sample | Sample()], (std::size_t)1))
           , w_sum_(numeric::fdiv(args[weight | Weight()], (std::size_t)1))
-          , threshold_(sign_ * args[pot_threshold_value])
+          , threshold_(sign_ * numeric::fdiv(args[pot_threshold_value], (std::size_t)1))
           , fit_parameters_(boost::make_tuple(0., 0., 0.))
           , is_dirty_(true)
         {
@@ -77,7 +77,7 @@ namespace impl
         {
             this->is_dirty_ = true;
 
-            if (this->sign_ * args[sample] > this->threshold_)
+            if (this->sign_ * numeric::fdiv(args[sample], (std::size_t)1) > this->threshold_)
             {
                 this->mu_ += args[weight] * args[sample];
                 this->sigma2_ += args[weight] * args[sample] * args[sample];
@@ -216,7 +216,7 @@ namespace impl
                     }
                 }
 
-                float_type u = *(tail(args).begin() + n - 1) * this->sign_;
+                float_type u = this->sign_ * numeric::fdiv(*(tail(args).begin() + n - 1), (std::size_t)1);
 
 
                 mu = this->sign_ * numeric::fdiv(mu, sum);
-- 
2.43.0


From 8a8e8c334f5fa4d77d0108a36bdf4cf845e03edf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:47 +0000
Subject: [PATCH 23/25] fix: use values in the set's sample and weight types

moment, rolling_moment, weighted_moment, weighted_sum, weighted_sum_kahan
and weighted_mean multiplied the arguments in the types they were passed in,
so a set of double given ints overflowed; convert to Sample/Weight first, as
the constructors do. The peaks over threshold fits squared integer samples
before adding them to their floating point sums.
---
 include/boost/accumulators/statistics/moment.hpp    |  2 +-
 .../statistics/peaks_over_threshold.hpp             | 13 ++++++++-----
 .../accumulators/statistics/rolling_moment.hpp      |  2 +-
 .../boost/accumulators/statistics/weighted_mean.hpp |  2 +-
 .../accumulators/statistics/weighted_moment.hpp     |  3 ++-
 .../statistics/weighted_peaks_over_threshold.hpp    | 13 ++++++++-----
 .../boost/accumulators/statistics/weighted_sum.hpp  |  3 ++-
 .../accumulators/statistics/weighted_sum_kahan.hpp  |  3 ++-
 8 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/include/boost/accumulators/statistics/moment.hpp b/include/boost/accumulators/statistics/moment.hpp
index 81ee3bb..d7279d9 100644
--- a/include/boost/accumulators/statistics/moment.hpp
+++ b/include/boost/accumulators/statistics/moment.hpp
@@ -66,7 +66,7 @@ namespace impl
         template<typename Args>
         void operator ()(Args const &args)
         {
-            this->sum += numeric::pow(args[sample], N());
+            this->sum += numeric::pow(static_cast<Sample const &>(args[sample]), N());
         }
 
         template<typename Args>
diff --git a/include/boost/accumulators/statistics/peaks_over_threshold.hpp b/include/boost/accumulators/statistics/peaks_over_threshold.hpp
index 3bb0506..90128d5 100644
--- a/include/boost/accumulators/statistics/peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/peaks_over_threshold.hpp
@@ -147,10 +147,12 @@ namespace impl
         {
             this->is_dirty_ = true;
 
-            if (sign::value * numeric::fdiv(args[sample], (std::size_t)1) > this->threshold_)
+            float_type x = numeric::fdiv(args[sample], (std::size_t)1);
+
+            if (sign::value * x > this->threshold_)
             {
-                this->mu_ += args[sample];
-                this->sigma2_ += args[sample] * args[sample];
+                this->mu_ += x;
+                this->sigma2_ += x * x;
                 ++this->Nu_;
             }
         }
@@ -286,8 +288,9 @@ namespace impl
                     // compute mean and variance of samples above/under threshold value u
                     for (std::size_t i = 0; i < n; ++i)
                     {
-                        mu += *(tail(args).begin() + i);
-                        sigma2 += *(tail(args).begin() + i) * (*(tail(args).begin() + i));
+                        float_type x = numeric::fdiv(*(tail(args).begin() + i), (std::size_t)1);
+                        mu += x;
+                        sigma2 += x * x;
                     }
 
                     mu = sign::value * numeric::fdiv(mu, n);
diff --git a/include/boost/accumulators/statistics/rolling_moment.hpp b/include/boost/accumulators/statistics/rolling_moment.hpp
index 3ad2ae9..172c5de 100644
--- a/include/boost/accumulators/statistics/rolling_moment.hpp
+++ b/include/boost/accumulators/statistics/rolling_moment.hpp
@@ -49,7 +49,7 @@ namespace impl
             {
                 this->sum_ -= numeric::pow(rolling_window_plus1(args).front(), N());
             }
-            this->sum_ += numeric::pow(args[sample], N());
+            this->sum_ += numeric::pow(static_cast<Sample const &>(args[sample]), N());
         }
 
         template<typename Args>
diff --git a/include/boost/accumulators/statistics/weighted_mean.hpp b/include/boost/accumulators/statistics/weighted_mean.hpp
index 5b8d2bd..779f543 100644
--- a/include/boost/accumulators/statistics/weighted_mean.hpp
+++ b/include/boost/accumulators/statistics/weighted_mean.hpp
@@ -92,7 +92,7 @@ namespace impl
             //  accumulator set passed as a named parameter
             Weight w_sum = sum_of_weights(args);
             Weight w = args[weight];
-            weighted_sample const &s = args[parameter::keyword<Tag>::get()] * w;
+            weighted_sample const &s = static_cast<Sample const &>(args[parameter::keyword<Tag>::get()]) * w;
             this->mean = numeric::fdiv(this->mean * (w_sum - w) + s, w_sum);
         }
 
diff --git a/include/boost/accumulators/statistics/weighted_moment.hpp b/include/boost/accumulators/statistics/weighted_moment.hpp
index 5b61290..fade050 100644
--- a/include/boost/accumulators/statistics/weighted_moment.hpp
+++ b/include/boost/accumulators/statistics/weighted_moment.hpp
@@ -51,7 +51,8 @@ namespace impl
         template<typename Args>
         void operator ()(Args const &args)
         {
-            this->sum += args[weight] * numeric::pow(args[sample], N());
+            this->sum += static_cast<Weight const &>(args[weight])
+              * numeric::pow(static_cast<Sample const &>(args[sample]), N());
         }
 
         template<typename Args>
diff --git a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
index 2ad2dfb..cb72d4d 100644
--- a/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
+++ b/include/boost/accumulators/statistics/weighted_peaks_over_threshold.hpp
@@ -77,10 +77,12 @@ namespace impl
         {
             this->is_dirty_ = true;
 
-            if (this->sign_ * numeric::fdiv(args[sample], (std::size_t)1) > this->threshold_)
+            float_type x = numeric::fdiv(args[sample], (std::size_t)1);
+
+            if (this->sign_ * x > this->threshold_)
             {
-                this->mu_ += args[weight] * args[sample];
-                this->sigma2_ += args[weight] * args[sample] * args[sample];
+                this->mu_ += args[weight] * x;
+                this->sigma2_ += args[weight] * x * x;
                 this->w_sum_ += args[weight];
             }
         }
@@ -191,8 +193,9 @@ namespace impl
                 {
                     if (n < static_cast<std::size_t>(tail_weights(args).size()))
                     {
-                        mu += *(tail_weights(args).begin() + n) * *(tail(args).begin() + n);
-                        sigma2 += *(tail_weights(args).begin() + n) * *(tail(args).begin() + n) * (*(tail(args).begin() + n));
+                        float_type x = numeric::fdiv(*(tail(args).begin() + n), (std::size_t)1);
+                        mu += *(tail_weights(args).begin() + n) * x;
+                        sigma2 += *(tail_weights(args).begin() + n) * x * x;
                         sum += *(tail_weights(args).begin() + n);
                         n++;
                     }
diff --git a/include/boost/accumulators/statistics/weighted_sum.hpp b/include/boost/accumulators/statistics/weighted_sum.hpp
index 7e51677..a17dfca 100644
--- a/include/boost/accumulators/statistics/weighted_sum.hpp
+++ b/include/boost/accumulators/statistics/weighted_sum.hpp
@@ -47,7 +47,8 @@ namespace impl
         void operator ()(Args const &args)
         {
             // what about overflow?
-            this->weighted_sum_ += args[parameter::keyword<Tag>::get()] * args[weight];
+            this->weighted_sum_ += static_cast<Sample const &>(args[parameter::keyword<Tag>::get()])
+              * static_cast<Weight const &>(args[weight]);
         }
 
         result_type result(dont_care) const
diff --git a/include/boost/accumulators/statistics/weighted_sum_kahan.hpp b/include/boost/accumulators/statistics/weighted_sum_kahan.hpp
index 5ee5250..83dfeb1 100644
--- a/include/boost/accumulators/statistics/weighted_sum_kahan.hpp
+++ b/include/boost/accumulators/statistics/weighted_sum_kahan.hpp
@@ -56,7 +56,8 @@ namespace impl
 #endif
         operator ()(Args const &args)
         {
-            const weighted_sample myTmp1 = args[parameter::keyword<Tag>::get()] * args[weight] - this->compensation;
+            const weighted_sample myTmp1 = static_cast<Sample const &>(args[parameter::keyword<Tag>::get()])
+              * static_cast<Weight const &>(args[weight]) - this->compensation;
             const weighted_sample myTmp2 = this->weighted_sum_ + myTmp1;
             this->compensation = (myTmp2 - this->weighted_sum_) - myTmp1;
             this->weighted_sum_ = myTmp2;
-- 
2.43.0


From d82a830c6813736ca4a9a33ca7db1ee4eeefaee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:03 +0000
Subject: [PATCH 24/25] fix: rolling_window: archive samples that are not plain
 data element by element

The window was written and read as one block of memory whatever the sample type, so
for vectors the archive held the addresses of their elements: reading it back gave
sets that shared and freed memory they did not own.
---
 .../statistics/rolling_window.hpp             | 65 ++++++++++++++++---
 1 file changed, 55 insertions(+), 10 deletions(-)

diff --git a/include/boost/accumulators/statistics/rolling_window.hpp b/include/boost/accumulators/statistics/rolling_window.hpp
index ecebeac..df3ce12 100644
--- a/include/boost/accumulators/statistics/rolling_window.hpp
+++ b/include/boost/accumulators/statistics/rolling_window.hpp
@@ -13,7 +13,10 @@
 #include <boost/version.hpp>
 #include <boost/assert.hpp>
 #include <boost/circular_buffer.hpp>
+#include <boost/mpl/bool.hpp>
 #include <boost/range/iterator_range.hpp>
+#include <boost/type_traits/has_trivial_assign.hpp>
+#include <boost/type_traits/has_trivial_destructor.hpp>
 #include <boost/accumulators/accumulators_fwd.hpp>
 #include <boost/accumulators/framework/extractor.hpp>
 #include <boost/accumulators/framework/depends_on.hpp>
@@ -27,18 +30,63 @@
 namespace boost { namespace serialization {
 
 // implement serialization for boost::circular_buffer
+namespace circular_buffer_detail
+{
+    // elements that are plain data are saved and loaded as one block
+    template <class Archive, class T>
+    void save_elements(Archive& ar, const circular_buffer<T>& b, mpl::true_)
+    {
+        // load_elements() reads the elements as one block, so they have to be written as
+        // one block, even if the buffer is wrapped around and not contiguous in memory.
+        const typename circular_buffer<T>::size_type size = b.size();
+        const typename circular_buffer<T>::pointer buff = new T[size];
+        std::copy(b.begin(), b.end(), buff);
+        ar.save_binary(buff, size*sizeof(T));
+        delete[] buff;
+    }
+
+    template <class Archive, class T>
+    void load_elements(Archive& ar, circular_buffer<T>& b, typename circular_buffer<T>::size_type size, mpl::true_)
+    {
+        const typename circular_buffer<T>::pointer buff = new T[size];
+        ar.load_binary(buff, size*sizeof(T));
+        b.insert(b.begin(), buff, buff+size);
+        delete[] buff;
+    }
+
+    // others (vectors, for example) are saved and loaded one by one
+    template <class Archive, class T>
+    void save_elements(Archive& ar, const circular_buffer<T>& b, mpl::false_)
+    {
+        for(typename circular_buffer<T>::const_iterator it = b.begin(); it != b.end(); ++it)
+        {
+            ar << *it;
+        }
+    }
+
+    template <class Archive, class T>
+    void load_elements(Archive& ar, circular_buffer<T>& b, typename circular_buffer<T>::size_type size, mpl::false_)
+    {
+        for(; size != 0; --size)
+        {
+            b.push_back(T());
+            ar >> b.back();
+        }
+    }
+
+    template <class T>
+    struct is_plain_data
+      : mpl::bool_<has_trivial_assign<T>::value && has_trivial_destructor<T>::value>
+    {};
+}
+
 template <class Archive, class T>
 void save(Archive& ar, const circular_buffer<T>& b, const unsigned int /* version */)
 {
     typename circular_buffer<T>::size_type size = b.size();
     ar << b.capacity();
     ar << size;
-    // load() reads the elements as one block, so they have to be written as one
-    // block, even if the buffer is wrapped around and not contiguous in memory.
-    const typename circular_buffer<T>::pointer buff = new T[size];
-    std::copy(b.begin(), b.end(), buff);
-    ar.save_binary(buff, size*sizeof(T));
-    delete[] buff;
+    circular_buffer_detail::save_elements(ar, b, mpl::bool_<circular_buffer_detail::is_plain_data<T>::value>());
 }
 
 template <class Archive, class T>
@@ -50,10 +98,7 @@ void load(Archive& ar, circular_buffer<T>& b, const unsigned int /* version */)
     b.set_capacity(capacity);
     ar >> size;
     b.clear();
-    const typename circular_buffer<T>::pointer buff = new T[size];
-    ar.load_binary(buff, size*sizeof(T));
-    b.insert(b.begin(), buff, buff+size);
-    delete[] buff;
+    circular_buffer_detail::load_elements(ar, b, size, mpl::bool_<circular_buffer_detail::is_plain_data<T>::value>());
 }
 
 template<class Archive, class T>
-- 
2.43.0


From 8146f83507081b6f3dade3ff8deef4fc06b8101a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:24 +0000
Subject: [PATCH 25/25] fix: rolling_window: leak nothing when an archive ends
 early

---
 .../accumulators/statistics/rolling_window.hpp      | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/include/boost/accumulators/statistics/rolling_window.hpp b/include/boost/accumulators/statistics/rolling_window.hpp
index df3ce12..007688b 100644
--- a/include/boost/accumulators/statistics/rolling_window.hpp
+++ b/include/boost/accumulators/statistics/rolling_window.hpp
@@ -38,20 +38,15 @@ namespace circular_buffer_detail
     {
         // load_elements() reads the elements as one block, so they have to be written as
         // one block, even if the buffer is wrapped around and not contiguous in memory.
-        const typename circular_buffer<T>::size_type size = b.size();
-        const typename circular_buffer<T>::pointer buff = new T[size];
-        std::copy(b.begin(), b.end(), buff);
-        ar.save_binary(buff, size*sizeof(T));
-        delete[] buff;
+        circular_buffer<T> copy(b);
+        ar.save_binary(copy.linearize(), copy.size()*sizeof(T));
     }
 
     template <class Archive, class T>
     void load_elements(Archive& ar, circular_buffer<T>& b, typename circular_buffer<T>::size_type size, mpl::true_)
     {
-        const typename circular_buffer<T>::pointer buff = new T[size];
-        ar.load_binary(buff, size*sizeof(T));
-        b.insert(b.begin(), buff, buff+size);
-        delete[] buff;
+        b.resize(size);
+        ar.load_binary(b.linearize(), size*sizeof(T));
     }
 
     // others (vectors, for example) are saved and loaded one by one
-- 
2.43.0

