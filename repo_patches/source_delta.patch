From 84af25db1df2e86b65ad4b0debb378752fa0d3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:50 +0000
Subject: [PATCH 01/64] fix: guard every header against multiple inclusion

utils.hpp is included by the three Mondrian headers, so two of them could not
be used in one program.
---
 src/bloom_filter.hpp       | 1 +
 src/chained_reservoir.hpp  | 1 +
 src/cuckoo_filter.hpp      | 1 +
 src/hoeffding_tree.hpp     | 1 +
 src/ltc.hpp                | 1 +
 src/mc_nn.hpp              | 1 +
 src/mondrian.hpp           | 1 +
 src/mondrian_coarse.hpp    | 1 +
 src/mondrian_unbound.hpp   | 1 +
 src/naive_bayes.hpp        | 1 +
 src/perceptron.hpp         | 1 +
 src/reservoir_sampling.hpp | 1 +
 src/utils.hpp              | 1 +
 13 files changed, 13 insertions(+)

diff --git a/src/bloom_filter.hpp b/src/bloom_filter.hpp
index 081726c..4651406 100644
--- a/src/bloom_filter.hpp
+++ b/src/bloom_filter.hpp
@@ -1,3 +1,4 @@
+#pragma once
 #include <cassert>
 
 //Typedef to simplify the use of the hash function given by the user.
diff --git a/src/chained_reservoir.hpp b/src/chained_reservoir.hpp
index 3a0224b..83d55ec 100644
--- a/src/chained_reservoir.hpp
+++ b/src/chained_reservoir.hpp
@@ -1,3 +1,4 @@
+#pragma once
 /**
  * A class that implement the reservoir sampling algorithm.
  *
diff --git a/src/cuckoo_filter.hpp b/src/cuckoo_filter.hpp
index fc6f279..a7ba97c 100644
--- a/src/cuckoo_filter.hpp
+++ b/src/cuckoo_filter.hpp
@@ -1,3 +1,4 @@
+#pragma once
 #include <cassert>
 #include <type_traits>
 #include <cmath>
diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index e6ac27d..0ece5ef 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -1,3 +1,4 @@
+#pragma once
 /**
  * Implement the Hoeffding Tree algorithm.
  * - feature_type: the type of the feature (int, double, float, short, ...).
diff --git a/src/ltc.hpp b/src/ltc.hpp
index 8022fe4..68d7dc8 100644
--- a/src/ltc.hpp
+++ b/src/ltc.hpp
@@ -1,3 +1,4 @@
+#pragma once
 /**
  * Implement the Lightweight Temporal Compression (LTC) algorithm.
  * - element_type: the type of element to store. It must be numbers.
diff --git a/src/mc_nn.hpp b/src/mc_nn.hpp
index beec111..4a56063 100644
--- a/src/mc_nn.hpp
+++ b/src/mc_nn.hpp
@@ -1,3 +1,4 @@
+#pragma once
 #include <cassert>
 #include <cmath>
 #include <iostream>
diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index 0801153..35727db 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -1,3 +1,4 @@
+#pragma once
 #include "utils.hpp"
 
 /**
diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index d99ef14..20057d6 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -1,3 +1,4 @@
+#pragma once
 #include "utils.hpp"
 #include "metrics.hpp"
 #include <typeinfo>
diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index c00bc5b..7a8135b 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -1,3 +1,4 @@
+#pragma once
 #include "utils.hpp"
 #include <vector>
 
diff --git a/src/naive_bayes.hpp b/src/naive_bayes.hpp
index 8cb2041..63062ce 100644
--- a/src/naive_bayes.hpp
+++ b/src/naive_bayes.hpp
@@ -1,3 +1,4 @@
+#pragma once
 /**
  * NaiveBayes class implements the Naive Bayes classifier.
  * Templates:
diff --git a/src/perceptron.hpp b/src/perceptron.hpp
index 1b20ed4..ad494fa 100644
--- a/src/perceptron.hpp
+++ b/src/perceptron.hpp
@@ -1,3 +1,4 @@
+#pragma once
 /**
  * Implement a Multi-Layers Perceptron object. The network is divided by layers and each layer of perceptron is fully connected to the previous one.
  * - layer_count: the number of layer.
diff --git a/src/reservoir_sampling.hpp b/src/reservoir_sampling.hpp
index f7cc7b1..2b90ed5 100644
--- a/src/reservoir_sampling.hpp
+++ b/src/reservoir_sampling.hpp
@@ -1,3 +1,4 @@
+#pragma once
 /**
  * Implement a Reservoir class which mostly act like an array.
  * - element_type: the type of element to store.
diff --git a/src/utils.hpp b/src/utils.hpp
index f86478a..61dc6d3 100644
--- a/src/utils.hpp
+++ b/src/utils.hpp
@@ -1,3 +1,4 @@
+#pragma once
 class Utils{
 	public:
 	/**
-- 
2.43.0


From 0a3959bb0d80f190664272e966e79d1a2b4a7ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 02/64] fix: ReservoirSamplingMetrics counter defined once per
 program, not per translation unit

---
 src/metrics.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/metrics.hpp b/src/metrics.hpp
index 78ba46e..4291324 100644
--- a/src/metrics.hpp
+++ b/src/metrics.hpp
@@ -103,7 +103,11 @@ class KappaMetrics{
 	}
 };
 class ReservoirSamplingMetrics{
-	static int total_count;
+	//The number of the most recent object; inside a function so that the header can be included by several translation units.
+	static int& last_number(void){
+		static int total_count = 0;
+		return total_count;
+	}
 	int number;
 	public:
 	ReservoirSamplingMetrics(){
@@ -117,6 +121,7 @@ class ReservoirSamplingMetrics{
 	void update(int const true_label, int const prediction){
 	}
 	double score(bool const invert=false, int const sample_size=1) const{
+		int const total_count = last_number();
 		if(total_count == number)
 			return static_cast<double>(number - sample_size) / static_cast<double>(total_count);
 		return 1 / static_cast<double>(total_count);
@@ -124,11 +129,10 @@ class ReservoirSamplingMetrics{
 	void increase_error(int const c=1){
 	}
 	void reset(){
-		total_count += 1;
-		number = total_count;
+		last_number() += 1;
+		number = last_number();
 	}
 	bool ratio(void) const{
 		return false;
 	}
 };
-int ReservoirSamplingMetrics::total_count = 0;
-- 
2.43.0


From 6bdc26f8e3befd949b65b02708813ace65164236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:13 +0000
Subject: [PATCH 03/64] fix: pick_from_distribution never picks an index of
 probability zero

---
 src/utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils.hpp b/src/utils.hpp
index 61dc6d3..1c36ae6 100644
--- a/src/utils.hpp
+++ b/src/utils.hpp
@@ -15,7 +15,8 @@ class Utils{
 		double const u = func::rand_uniform(); //Sample a random number between [0,1[
 		//NOTE improve with a log search :]
 		for(int i = 0; i < size; ++i){
-			if(u <= probabilities[i])
+			//NOTE: an index with a probability of zero cannot be picked, even when u == 0
+			if(u <= probabilities[i] && probabilities[i] > (i > 0 ? probabilities[i-1] : 0))
 				return i;
 		}
 		return size;//NOTE: this should never happen unless the last element of *probabilities* is less than 1
-- 
2.43.0


From beb305e7098233d53a74f30dbf94dc9ccb6b154a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:16 +0000
Subject: [PATCH 04/64] fix: turn_array_into_probability ends on exactly 1 when
 the sum is computed

---
 src/utils.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/utils.hpp b/src/utils.hpp
index 1c36ae6..10a2edd 100644
--- a/src/utils.hpp
+++ b/src/utils.hpp
@@ -35,12 +35,13 @@ class Utils{
 			for(int i = 0; i < size; ++i)
 				sum += values[i];
 		}
-		//Set the first element of the array to its probability
-		values[0] = (values[0]/sum);
-
 		//Itirate to create the sum of probabilities
-		for(int i = 1; i < size; ++i)
-			values[i] = values[i-1] + (values[i]/sum);
+		//NOTE: divide the partial sums, so that rounding errors do not accumulate and the last probability is 1
+		double partial_sum = 0;
+		for(int i = 0; i < size; ++i){
+			partial_sum += values[i];
+			values[i] = (partial_sum/sum);
+		}
 	}
 	/**
 	 * A function that pick a random number according to an exponential law.
-- 
2.43.0


From e9c7c18669caf432d084931ac818bd8ce0b78ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:39 +0000
Subject: [PATCH 05/64] fix: Bloom and Cuckoo filters store eight bits per byte

BYTE_SIZE was the size of a byte in bytes, so every bit took a whole byte:
the filters used eight times the memory they are parameterised with.
---
 src/bloom_filter.hpp  | 4 ++--
 src/cuckoo_filter.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bloom_filter.hpp b/src/bloom_filter.hpp
index 4651406..ba00256 100644
--- a/src/bloom_filter.hpp
+++ b/src/bloom_filter.hpp
@@ -2,7 +2,7 @@
 #include <cassert>
 
 //Typedef to simplify the use of the hash function given by the user.
-#define BYTE_SIZE (sizeof(unsigned char))
+#define BYTE_SIZE (8 * sizeof(unsigned char)) //The number of bits in a byte
 
 /**
  * The BloomFilter class implement the Bloom filter algorithm.
@@ -13,7 +13,7 @@
 template<class element_type, int bit_size, int hash_count>
 class BloomFilter{
 	typedef unsigned int (*hash_function_t)(element_type*);
-	unsigned char bits[bit_size];
+	unsigned char bits[(bit_size + BYTE_SIZE - 1) / BYTE_SIZE];
 	hash_function_t hashs[hash_count];
 	unsigned int const real_size = ((bit_size - (bit_size%BYTE_SIZE)) / BYTE_SIZE) + ((bit_size%BYTE_SIZE) > 0);
 
diff --git a/src/cuckoo_filter.hpp b/src/cuckoo_filter.hpp
index a7ba97c..71b5284 100644
--- a/src/cuckoo_filter.hpp
+++ b/src/cuckoo_filter.hpp
@@ -5,7 +5,7 @@
 
 #include <utility>
 
-#define BYTE_SIZE (sizeof(unsigned char))
+#define BYTE_SIZE (8 * sizeof(unsigned char)) //The number of bits in a byte
 /**
  * CuckooFilter class implements the Cuckoo Filter algorithm.
  * Templates:
-- 
2.43.0


From 8eee5b9a78f8f1db59fc9add1f4b3978795c6dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:43 +0000
Subject: [PATCH 06/64] fix: an empty CuckooFilter is filled with empty_value,
 not with zeros

---
 src/cuckoo_filter.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cuckoo_filter.hpp b/src/cuckoo_filter.hpp
index 71b5284..50d79e4 100644
--- a/src/cuckoo_filter.hpp
+++ b/src/cuckoo_filter.hpp
@@ -149,6 +149,7 @@ class CuckooFilter{
 	 * Basic constructor.
 	 */
 	CuckooFilter(){
+		clear();
 	}
 	/**
 	 * Add a new element to the filter.
@@ -241,7 +242,8 @@ class CuckooFilter{
 	 * Empty the filter.
 	 */
 	void clear(void){
-		for(unsigned char& byte : filter)
-			byte = 0;
+		for(unsigned int i = 0; i < bucket_count; ++i)
+			for(unsigned int j = 0; j < bucket_size; ++j)
+				set_entry(i, j, empty_value);
 	}
 };
-- 
2.43.0


From 2a84037e25e263f3cb4ed323fe2e835ccd7cdb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:14 +0000
Subject: [PATCH 07/64] fix: a failed CuckooFilter::add no longer drops a
 stored fingerprint

When no room was found after 500 moves, the last fingerprint taken out of its
bucket was lost, so an element that had been added was no longer found.
Put the moved fingerprints back, so a failed add leaves the filter as it was.
---
 src/cuckoo_filter.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/cuckoo_filter.hpp b/src/cuckoo_filter.hpp
index 50d79e4..c244d3c 100644
--- a/src/cuckoo_filter.hpp
+++ b/src/cuckoo_filter.hpp
@@ -168,6 +168,8 @@ class CuckooFilter{
 		unsigned int h2 = h1 ^ funct::hash(fp);
 
 		bool inserted = false;
+		//The position of the entries moved to make room, to put them back if no room is found
+		unsigned int moved_bucket[500], moved_entry[500];
 		int i = 0;
 		do{
 			int space_h1 = space_in_bucket(h1);
@@ -196,6 +198,8 @@ class CuckooFilter{
 				auto space_h = static_cast<unsigned int>(floor(random_function() * (bucket_size-1)));
 				fingerprint_t tmp = get_entry(h, space_h);
 				set_entry(h, space_h, fp);
+				moved_bucket[i] = h;
+				moved_entry[i] = space_h;
 				fp = tmp;
 				h1 = h;
 				h2 = h1 ^ funct::hash(fp);
@@ -203,6 +207,14 @@ class CuckooFilter{
 			i += 1;
 		}while(i < 500);
 
+		//No room found: undo the moves, otherwise the last fingerprint taken out would be lost
+		while(!inserted && i > 0){
+			i -= 1;
+			fingerprint_t const tmp = get_entry(moved_bucket[i], moved_entry[i]);
+			set_entry(moved_bucket[i], moved_entry[i], fp);
+			fp = tmp;
+		}
+
 		return inserted;
 	}
 	/**
-- 
2.43.0


From ebc0a03ac466af3e35a1dce66fdb924fbd489e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:17 +0000
Subject: [PATCH 08/64] fix: LTC keeps its limits as double

They were stored in element_type: truncated at every point for integers, so the
error grew beyond epsilon, and LTC did not compile for float or double elements.
---
 src/ltc.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/ltc.hpp b/src/ltc.hpp
index 68d7dc8..10a47c5 100644
--- a/src/ltc.hpp
+++ b/src/ltc.hpp
@@ -17,7 +17,16 @@ class LTC{
 		timestamp_type timestamp;
 		element_type value;
 	};
-	data_point last_transmit_point, UL, LL, new_ul, new_ll, to_transmit;
+	/*
+	 * Internal structure to describe an upper or a lower limit.
+	 * The value is not an element_type, because rounding it at each new data point would make the limits drift.
+	 */
+	struct limit_point{
+		timestamp_type timestamp;
+		double value;
+	};
+	data_point last_transmit_point, to_transmit;
+	limit_point UL, LL, new_ul, new_ll;
 
 	int counter = 0; //Counter make sure the algorithm does not fail for the first 3 values
 
@@ -53,9 +62,9 @@ class LTC{
 	 */
 	void update(timestamp_type const timestamp, element_type const value){
 		new_ul.timestamp = timestamp;
-		new_ul.value = min(value + epsilon, max_value);
+		new_ul.value = min(static_cast<double>(value) + epsilon, static_cast<double>(max_value));
 		new_ll.timestamp = timestamp;
-		new_ll.value = max(value - epsilon, min_value);
+		new_ll.value = max(static_cast<double>(value) - epsilon, static_cast<double>(min_value));
 	}
 	/*
 	 * Compute the need to transmit the compress data point.
-- 
2.43.0


From 59fa2f1e53add0bfeeb8418bf79a78ba26402da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:20 +0000
Subject: [PATCH 09/64] fix: LTC dates a transmitted point with the data point
 it stands for

It was dated one unit before the current data point, which is only the previous
data point when timestamps are consecutive.
---
 src/ltc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ltc.hpp b/src/ltc.hpp
index 10a47c5..69d3ee4 100644
--- a/src/ltc.hpp
+++ b/src/ltc.hpp
@@ -130,7 +130,7 @@ class LTC{
 			to_transmit = last_transmit_point;
 			//Update the last_transmit_point
 			element_type tmp_param = (UL.value + LL.value) / 2;
-			last_transmit_point.timestamp = timestamp - 1;
+			last_transmit_point.timestamp = UL.timestamp; //The limits are those of the previous data point
 			last_transmit_point.value = tmp_param;
 			counter = 1;
 			add(timestamp, value);
-- 
2.43.0


From d3cb11af8402a1594de87e0c89ee818bddb18b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:23 +0000
Subject: [PATCH 10/64] fix: LTC extends its limits with the slope's own time
 unit

---
 src/ltc.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ltc.hpp b/src/ltc.hpp
index 69d3ee4..6f66979 100644
--- a/src/ltc.hpp
+++ b/src/ltc.hpp
@@ -79,11 +79,11 @@ class LTC{
 			return true;
 
 		if(old_up_deriva < new_up_deriva) {
-			new_ul.value = (new_ul.timestamp - UL.timestamp) / time_unit_difference * old_up_deriva + UL.value;
+			new_ul.value = static_cast<double>(new_ul.timestamp - UL.timestamp) * time_unit_difference * old_up_deriva + UL.value;
 		}
 
 		if(old_low_deriva > new_low_deriva) {
-			new_ll.value = (new_ll.timestamp - LL.timestamp) / time_unit_difference * old_low_deriva + LL.value;
+			new_ll.value = static_cast<double>(new_ll.timestamp - LL.timestamp) * time_unit_difference * old_low_deriva + LL.value;
 		}
 		return false;
 	}
-- 
2.43.0


From f3bd543463f2cbfaacedbbefcccdf16b7baf97eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:38 +0000
Subject: [PATCH 11/64] fix: reservoirs stay in bounds when the random function
 returns 1

The random function returns a number between 0 and 1 (rand()/RAND_MAX in the
documentation), so exactly 1 is possible; it selected the slot past the end.
---
 src/reservoir_sampling.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/reservoir_sampling.hpp b/src/reservoir_sampling.hpp
index 2b90ed5..b7c0133 100644
--- a/src/reservoir_sampling.hpp
+++ b/src/reservoir_sampling.hpp
@@ -66,8 +66,11 @@ class ReservoirSampling : public Reservoir<element_type, sample_size>{
 			//We use counter+1 because the current item is not counted in counter yet
 			double const threshold = static_cast<double>(sample_size) / static_cast<double>(counter+1);
 			double const rnd = func::random();
-			if(rnd < threshold)
+			if(rnd < threshold){
 				idx = func::floor(func::random() * static_cast<double>(sample_size));
+				if(idx >= static_cast<int>(sample_size)) //The random number was exactly 1
+					idx = sample_size - 1;
+			}
 		}
 		counter += 1;
 		return idx;
@@ -114,10 +117,12 @@ class ExponentialReservoirSampling : public Reservoir<element_type, sample_size>
 		double const filling_ratio = static_cast<double>(counter)/static_cast<double>(sample_size);
 		double const remove_element = func::random();
 		int index;
-		if(remove_element < filling_ratio){
+		if(remove_element < filling_ratio || counter >= sample_size){
 			double const rdn = func::random();
 			//NOTE: index range from [0, counter[.
 			index = func::floor(rdn * static_cast<double>(counter));
+			if(index >= static_cast<int>(counter)) //The random number was exactly 1
+				index = counter - 1;
 		}
 		else{
 			index = counter;
-- 
2.43.0


From 00bea66338ba6fd6c9630b46c124f14085e47359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:23 +0000
Subject: [PATCH 12/64] fix: ChainedReservoirSampling counts the current
 element in its sampling probability

The element after the first sample_size ones was always sampled, and each later
one a bit too often.
---
 src/chained_reservoir.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chained_reservoir.hpp b/src/chained_reservoir.hpp
index 83d55ec..a291b76 100644
--- a/src/chained_reservoir.hpp
+++ b/src/chained_reservoir.hpp
@@ -128,7 +128,7 @@ class ChainedReservoirSampling{
 			next[counter] = counter + 1 + round(funct::random() * (sample_size-1));
 		}
 		else{
-			double const threshold = (double)sample_size / (double)counter;
+			double const threshold = (double)sample_size / (double)(counter + 1); //The current element is not counted in counter yet
 			double const rnd = funct::random();
 			if(rnd < threshold){
 				int const index = round(funct::random() * (sample_size-1));
-- 
2.43.0


From b04a2a6a5120ad7cf4c0a975d68f1049c78f9e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 13/64] fix: ChainedReservoirSampling picks all indexes with
 the same probability

Rounding to the closest integer gave the first and the last index half the
probability of the others.
---
 src/chained_reservoir.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/chained_reservoir.hpp b/src/chained_reservoir.hpp
index a291b76..3302cac 100644
--- a/src/chained_reservoir.hpp
+++ b/src/chained_reservoir.hpp
@@ -30,11 +30,11 @@ class ChainedReservoirSampling{
 	unsigned int counter = 0;
 
 	/**
-	 * Round d to the closest integer
-	 * @param d the double to round
+	 * Pick a random index between 0 and sample_size - 1, all with the same probability.
 	 */
-	double round(double const d) {
-		  return (double)((int)(d + 0.5));
+	unsigned int random_index(void) {
+		unsigned int const index = static_cast<unsigned int>(funct::random() * sample_size);
+		return (index < sample_size) ? index : sample_size - 1; //The random number can be exactly 1
 	}
 	/**
 	 * Function to reset a chain when it is replaced. This is a recursive function.
@@ -125,24 +125,24 @@ class ChainedReservoirSampling{
 			sample[counter].element = e;
 			sample[counter].timestamp = timestamp;
 			sample[counter].next = NULL;
-			next[counter] = counter + 1 + round(funct::random() * (sample_size-1));
+			next[counter] = counter + 1 + random_index();
 		}
 		else{
 			double const threshold = (double)sample_size / (double)(counter + 1); //The current element is not counted in counter yet
 			double const rnd = funct::random();
 			if(rnd < threshold){
-				int const index = round(funct::random() * (sample_size-1));
+				int const index = random_index();
 				sample[index].element = e;
 				sample[index].timestamp = timestamp;
 				clear_chain(sample[index].next); //NOTE we do not free the memory here, but it might be interesting to think about it
-				next[index] = counter + 1 + round(funct::random() * (sample_size-1));
+				next[index] = counter + 1 + random_index();
 			}
 		}
 		//check `next`
 		for(int i = 0; i < sample_size; ++i){
 			if(counter == next[i]){
 				push_on_chain(sample[i], e, timestamp);
-				next[i] = counter + 1 + round(funct::random() * (sample_size-1));
+				next[i] = counter + 1 + random_index();
 			}
 		}
 		counter += 1;
-- 
2.43.0


From 49714f7ffcdb7db4ca61882d99c62576a2e92870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:29 +0000
Subject: [PATCH 14/64] fix: ChainedReservoirSampling::obsolete includes the
 timestamp it is given, as documented

---
 src/chained_reservoir.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chained_reservoir.hpp b/src/chained_reservoir.hpp
index 3302cac..41dbdde 100644
--- a/src/chained_reservoir.hpp
+++ b/src/chained_reservoir.hpp
@@ -171,7 +171,7 @@ class ChainedReservoirSampling{
 			node* current = &head;
 			bool do_shift = true;
 
-			while(current->timestamp < timestamp){
+			while(current->timestamp <= timestamp){
 				if(current->next == NULL){
 					do_shift = false;
 					break;
-- 
2.43.0


From 25da28948020167b080822dafca80bab6c093b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:32 +0000
Subject: [PATCH 15/64] fix: ChainedReservoirSampling::obsolete moves the chain
 instead of overwriting it

A reference cannot be reseated: assigning to it overwrote the first cells with
the following ones, which lost live elements and their memory.
---
 src/chained_reservoir.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/chained_reservoir.hpp b/src/chained_reservoir.hpp
index 41dbdde..ed171e1 100644
--- a/src/chained_reservoir.hpp
+++ b/src/chained_reservoir.hpp
@@ -85,22 +85,22 @@ class ChainedReservoirSampling{
 	 * @param current the node that should replace head.
 	 */
 	void shift_chain(node& head, node& current){//TODO improve this to avoid overwriting elements
-		node& receiver = head;
-		node& mover = current;
+		node* receiver = &head;
+		node* mover = &current;
 		while(1){//TODO add security
-			receiver.element = mover.element;
-			receiver.timestamp = mover.timestamp;
-			if(mover.next != NULL){
-				mover = *mover.next;
-				receiver = *receiver.next;
+			receiver->element = mover->element;
+			receiver->timestamp = mover->timestamp;
+			if(mover->next != NULL){
+				mover = mover->next;
+				receiver = receiver->next;
 			}
 			else
 				break;
 		}
 		//Once everything is shifted, disable all following cells
-		while(receiver.next != NULL){
-			receiver = *receiver.next;
-			receiver.timestamp = 0;
+		while(receiver->next != NULL){
+			receiver = receiver->next;
+			receiver->timestamp = 0;
 		}
 	}
 	public:
-- 
2.43.0


From c7b6b487220ee7bf9514e944e73c12ec378998da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:34 +0000
Subject: [PATCH 16/64] fix: ChainedReservoirSampling accepts chains of any
 length

A chain reaches 5000 elements in an ordinary stream (10000 elements for a sample
of one), which aborted; the recursion over a chain is now a loop.
---
 src/chained_reservoir.hpp | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/chained_reservoir.hpp b/src/chained_reservoir.hpp
index ed171e1..8c93965 100644
--- a/src/chained_reservoir.hpp
+++ b/src/chained_reservoir.hpp
@@ -37,15 +37,12 @@ class ChainedReservoirSampling{
 		return (index < sample_size) ? index : sample_size - 1; //The random number can be exactly 1
 	}
 	/**
-	 * Function to reset a chain when it is replaced. This is a recursive function.
+	 * Function to reset a chain when it is replaced.
 	 * @param start The node to start from.
 	 */
 	void clear_chain(node* start){
-		if(start == NULL)
-			return;
-		start->timestamp = 0;
-		//TODO improve this recursive code lazy boy -_-"
-		clear_chain(start->next);
+		for(node* current = start; current != NULL; current = current->next)
+			current->timestamp = 0;
 	}
 	/** Add a new element in the first available space of a chain.
 	 * If there is no space (and no loop) it run the malloc function given in `funct` to allocate a new space.
@@ -55,9 +52,8 @@ class ChainedReservoirSampling{
 	 */
 	void push_on_chain(node& head, element_type e, unsigned int const timestamp){
 		node* current = &head;
-		int i = 0;
 		//The only thing that could make this loop forever is a corruption the linked list of node that loop over the same data without empty space.
-		while(i < 5000){ //`i` is just a security
+		while(1){
 			if(current->timestamp == 0){ // This cell is available
 				current->element = e;
 				current->timestamp = timestamp;
@@ -74,10 +70,7 @@ class ChainedReservoirSampling{
 			}
 
 			current = current->next;
-			i += 1;
 		}
-		assert(false);
-		//TODO maybe clear the chain if it is corrupted
 	}
 	/*
 	 * Shift the node from current to head.
-- 
2.43.0


From 74c2147cf033c837aeb0c953f4decd88bb163ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 17/64] fix: every leaf of a HoeffdingTree gets its own
 counters

buffer_preset was never moved, so the counters of all right children were in the
same place as those of the root.
---
 src/hoeffding_tree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index 0ece5ef..65eb169 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -50,6 +50,7 @@ class HoeffdingTree{
 			// NOTE: in the new operator, we made sure that there was space for the node and its counters.
 			int const total_size_counters = compute_total_size_counters(tree->sum_feature_size);
 			int const tmp_preset = tree->buffer_preset - total_size_counters;
+			tree->buffer_preset = tmp_preset; //The counters of this node are now in use
 			this->split_feature = - ((max_size - tmp_preset) / total_size_counters); //we need negative number because counters are store on the other side of buffer
 			reset_counters();
 			double const infinity = std::numeric_limits<float>::infinity();
-- 
2.43.0


From 939814eea11273068e4f130f88b8e5b46d233a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:57 +0000
Subject: [PATCH 18/64] fix: a HoeffdingTree whose memory is full keeps working

A failed node allocation was used as a node, and a failed split was followed by a
descent into children that do not exist.
---
 src/hoeffding_tree.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index 65eb169..449a4bd 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -126,11 +126,17 @@ class HoeffdingTree{
 		 * @param value The value to use for the split.
 		 */
 		int split(int const feature, double const value){
+			int const previous_offset = tree->buffer_offset, previous_preset = tree->buffer_preset;
 			Node* child_right = new (*tree) Node(*tree);
+			if(child_right == nullptr) // No more node available
+				return -1;
 			//NOTE: child_left has been created re-using counters and bounds from current node
 			Node* child_left = new (*tree) Node(*this); 
-			if(child_left == nullptr || child_right == nullptr) // No more node available
+			if(child_left == nullptr){ // No more node available, give the right child back
+				tree->buffer_offset = previous_offset;
+				tree->buffer_preset = previous_preset;
 				return -1;
+			}
 			//This operation return the index of child_left since the cell size of the pointer is sizeof Node
 			children[0] = child_left - reinterpret_cast<Node*>(tree->buffer); 
 			children[1] = child_right - reinterpret_cast<Node*>(tree->buffer);
@@ -328,7 +334,7 @@ class HoeffdingTree{
 		 * @param size The size to allocate (a must have for any new operator overload).
 		 * @param tree An additional parameter that indicates the tree of the node.
 		 */
-		void* operator new(size_t const size, HoeffdingTree& tree){
+		void* operator new(size_t const size, HoeffdingTree& tree) noexcept{
 			int const tmp_offset = tree.buffer_offset + size;
 			int const tmp_preset = tree.buffer_preset - compute_total_size_counters(tree.sum_feature_size);
 			if(tmp_offset > tmp_preset)
@@ -504,6 +510,8 @@ class HoeffdingTree{
 		int const result = leaf->train(features, label, split_value);
 		if(result >= 0){
 			int const split_result = leaf->split(result, split_value);
+			if(split_result != 0) //The leaf is still a leaf
+				return false;
 			//NOTE: it is very unlikely the node will split, so we don't check
 			if(features[result] <= split_value)
 				leaf->get_left_child()->train(features, label, split_value);
-- 
2.43.0


From 789862139db528cac9724339b109884ca829c7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:59 +0000
Subject: [PATCH 19/64] fix: a HoeffdingTree split uses the feature its limit
 belongs to

A feature has one limit less than it has bins.
---
 src/hoeffding_tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index 449a4bd..47d87e9 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -240,11 +240,11 @@ class HoeffdingTree{
 			if(square_diff > epsilon && info_gain[best_split[0]] > 0){
 				split_value = limits[best_split[0]];
 				//Try to retrieve the feature concerned :>
-				int tmp_c = tree->features_size[0];
+				int tmp_c = tree->features_size[0] - 1; //There is one limit less than there is bins
 				for(int f = 0; f < feature_count-1; ++f){
 					if(best_split[0] < tmp_c)
 						return f;
-					tmp_c += tree->features_size[f+1];
+					tmp_c += tree->features_size[f+1] - 1;
 				}
 				//If the feature is not found, it must be the last one
 				return feature_count-1;
-- 
2.43.0


From d2631c67ad077fff107eda149d96993ddf371c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:02 +0000
Subject: [PATCH 20/64] fix: the box of the root of a HoeffdingTree starts
 empty

It started infinite, so it never changed and the split values of every child were
NaN: a tree could not grow beyond its first split.
---
 src/hoeffding_tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index 47d87e9..01164a6 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -55,8 +55,8 @@ class HoeffdingTree{
 			reset_counters();
 			double const infinity = std::numeric_limits<float>::infinity();
 			for(int i = 0; i < feature_count; ++i){
-				l_box[i] = -infinity;
-				u_box[i] =  infinity;
+				l_box[i] =  infinity;
+				u_box[i] = -infinity;
 			}
 			int* count;
 			double* limits;
-- 
2.43.0


From 0a24935ecdcb1b1afcb044b504769d3c02ba0e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 21/64] fix: a HoeffdingTree with a single limit does not read
 past its information gains

---
 src/hoeffding_tree.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index 01164a6..0799ea7 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -219,7 +219,9 @@ class HoeffdingTree{
 			int best_split[2] = {0, 1};
 			//The information gain of best_split[0] is always greater than best_split[1]
 			//So we may need to switch it
-			if(info_gain[best_split[0]] < info_gain[best_split[1]]){
+			//If there is only one limit, it is compared to no split at all, which has no information gain
+			bool const single_limit = (tree->sum_feature_size-feature_count) < 2;
+			if(!single_limit && info_gain[best_split[0]] < info_gain[best_split[1]]){
 				best_split[0] = 1;
 				best_split[1] = 0;
 			}
@@ -235,7 +237,7 @@ class HoeffdingTree{
 			}
 			//compute Hoeffding bound
 			double const epsilon = 4 * func::log(1/tree->delta) / (2*d_count);
-			double const diff = (info_gain[best_split[0]] - info_gain[best_split[1]]);
+			double const diff = (info_gain[best_split[0]] - (single_limit ? 0 : info_gain[best_split[1]]));
 			double const square_diff = diff * diff;
 			if(square_diff > epsilon && info_gain[best_split[0]] > 0){
 				split_value = limits[best_split[0]];
-- 
2.43.0


From 2fcb7320e319ca350115d83e6de4517d8da8e30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:07 +0000
Subject: [PATCH 22/64] fix: HoeffdingTree counts a value equal to a limit on
 the side a split sends it to

A data point equal to the split value goes to the left child.
---
 src/hoeffding_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index 0799ea7..1e3666b 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -193,7 +193,7 @@ class HoeffdingTree{
 				//Look for the bin
 				for(int lim_index = 0; lim_index < (tree->features_size[f]-1); ++lim_index){ //There is one limit less than there  is bins
 					//NOTE the limits are supposed to be sorted
-					if(features[f] < limits[tmp_feature_sum+lim_index-f]){
+					if(features[f] <= limits[tmp_feature_sum+lim_index-f]){ //As in *sort_in_leaf*
 						label_counters[tmp_feature_sum + lim_index] += 1;
 						limit_found = true;
 						break;
-- 
2.43.0


From 48f8368cfc9cfc526d7e58eb73ee7f47cafce627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:10 +0000
Subject: [PATCH 23/64] fix: the scores of an empty HoeffdingTree leaf are not
 NaN

---
 src/hoeffding_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index 1e3666b..0f4bbc4 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -113,7 +113,7 @@ class HoeffdingTree{
 			//Compute the probabilities.
 			//NOTE: *l* starts at 0 because if it starts at 1, the first probability won't be computed and stored in the array
 			for(int l = 0; l < label_count; ++l){
-				probabilities[l] = counts[l] / sum;
+				probabilities[l] = sum > 0 ? counts[l] / sum : 1.0 / label_count; //A leaf without data points has no preference
 				if(probabilities[l] > probabilities[best])
 					best = l;
 			}
-- 
2.43.0


From cd499f2a906f6a7efd2561799b98f5cbd3288538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 24/64] fix: MCNN finds clusters at any distance

Clusters further than a fixed 1000 from a data point were ignored: it was predicted
as empty_class, or started a new cluster.
---
 src/mc_nn.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mc_nn.hpp b/src/mc_nn.hpp
index 4a56063..eab1fd6 100644
--- a/src/mc_nn.hpp
+++ b/src/mc_nn.hpp
@@ -222,7 +222,7 @@ class MCNN{
 		//Otherwise, we have to found it.
 		feature_type centroid[feature_count];
 		int nearest_cluster = -1;
-		double shortest_distance = 1000000;
+		double shortest_distance = -1; //Not used before a cluster is found
 		for(int cluster_idx = 0; cluster_idx < max_cluster; ++cluster_idx){
 			//Only check the distance with the cluster with the same label.
 			if(!active[cluster_idx] || clusters[cluster_idx].label != label)
@@ -230,7 +230,7 @@ class MCNN{
 			//NOTE: finding both the nearest and the nearest with class could be done in one pass, but I choose to use 2 different functions to make it clearer.
 			clusters[cluster_idx].centroid(centroid);
 			double const distance = euclidean_distance(features, centroid);
-			if(distance < shortest_distance){
+			if(nearest_cluster < 0 || distance < shortest_distance){
 				nearest_cluster = cluster_idx;
 				shortest_distance = distance;
 			}
@@ -238,7 +238,7 @@ class MCNN{
 		nearest_with_class = nearest_cluster;
 
 		//If the distance to the micro-cluster with the same class is the same as an other cluster which was picked, then replace nearest.
-		if(shortest_distance == distance_nearest)
+		if(nearest_with_class >= 0 && shortest_distance == distance_nearest)
 			nearest = nearest_with_class;
 	}
 	/**
@@ -250,7 +250,7 @@ class MCNN{
 	void find_nearest_clusters(feature_type const* features, int& nearest, double* shortest = nullptr) const{
 		feature_type centroid[feature_count];
 		int nearest_cluster = -1;
-		double shortest_distance = 1000000;
+		double shortest_distance = -1; //Not used before a cluster is found
 		//Loop over the clusters
 		for(int cluster_idx = 0; cluster_idx < max_cluster; ++cluster_idx){
 			//If the cluster is empty, skip it
@@ -260,7 +260,7 @@ class MCNN{
 			clusters[cluster_idx].centroid(centroid);
 			//Compute the squared euclidean distance
 			double const distance = euclidean_distance(features, centroid);
-			if(distance < shortest_distance){
+			if(nearest_cluster < 0 || distance < shortest_distance){
 				nearest_cluster = cluster_idx;
 				shortest_distance = distance;
 			}
-- 
2.43.0


From f68045d387dca71f5b815c5bc10e10db03fe49b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:52 +0000
Subject: [PATCH 25/64] fix: MCNN splits clusters of negative integers

Dividing a negative int by an unsigned int wrapped around.
---
 src/mc_nn.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mc_nn.hpp b/src/mc_nn.hpp
index eab1fd6..6a46188 100644
--- a/src/mc_nn.hpp
+++ b/src/mc_nn.hpp
@@ -176,7 +176,7 @@ class MCNN{
 		//Create two separate feature data points based on the centroid of the original cluster
 		feature_type cluster_minus[feature_count], cluster_plus[feature_count];
 		for(int i = 0; i < feature_count; ++i){
-			cluster_minus[i] = cluster_plus[i] = clusters[cluster_idx].features_sum[i] / clusters[cluster_idx].data_count;
+			cluster_minus[i] = cluster_plus[i] = (double)clusters[cluster_idx].features_sum[i] / (double)clusters[cluster_idx].data_count;
 		}
 
 		//Update the spliting attribut
-- 
2.43.0


From b99db9ba6d1af12179075eba94f68732382b3159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:54 +0000
Subject: [PATCH 26/64] fix: MCNN variance is never negative

A rounding error made it slightly negative for a cluster of equal points, and the
centroids of its split NaN.
---
 src/mc_nn.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mc_nn.hpp b/src/mc_nn.hpp
index 6a46188..d2aed9a 100644
--- a/src/mc_nn.hpp
+++ b/src/mc_nn.hpp
@@ -37,7 +37,7 @@ class MCNN{
 			double const a = (double)features_square_sum[features_idx] / (double)data_count; //CF2X
 			double const b = (double)features_sum[features_idx] / (double)data_count; //CF1X
 			double const ret=a - b*b;
-			return ret;
+			return ret > 0 ? ret : 0; //Rounding errors may make it slightly negative
 		}
 		/**
 		 * Incorporate a data point into the micro-cluster.
-- 
2.43.0


From 6be96561f7ab8ef51baf87f63b3312862658339e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 27/64] fix: MCNN::count_clusters counts the active clusters

It ignored the clusters removed by the cleaning, and counted twice those evicted
by a split.
---
 src/mc_nn.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mc_nn.hpp b/src/mc_nn.hpp
index d2aed9a..06b7827 100644
--- a/src/mc_nn.hpp
+++ b/src/mc_nn.hpp
@@ -188,8 +188,10 @@ class MCNN{
 
 		clusters[new_idx].initialize(cluster_minus, clusters[cluster_idx].label, old_time, error_thr);
 		clusters[cluster_idx].initialize(cluster_plus, clusters[cluster_idx].label, old_time, error_thr);
+		//An evicted cluster was already counted
+		if(!active[new_idx])
+			count_active_cluster += 1;
 		active[new_idx] = true;
-		count_active_cluster += 1;
 	}
 	/**
 	 * Compute the squared distance between two data point.
@@ -283,7 +285,10 @@ class MCNN{
 	void clean_low_performance_clusters(void){
 		for(int i = 0; i < max_cluster; ++i)
 			if(active[i] == true && clusters[i].data_count > 1 && clusters[i].performance(timestamp) < performance_thr)
+			{
 				active[i] = false;
+				count_active_cluster -= 1;
+			}
 	}
 	public:
 	/**
-- 
2.43.0


From 3210857b10023801601a54a4e90e320b3fb59bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:00 +0000
Subject: [PATCH 28/64] fix: MultiLayerPerceptron::backpropagate does not read
 before layer_size

The input layer has no previous layer.
---
 src/perceptron.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/perceptron.hpp b/src/perceptron.hpp
index ad494fa..f1f74a4 100644
--- a/src/perceptron.hpp
+++ b/src/perceptron.hpp
@@ -166,7 +166,9 @@ class MultiLayerPerceptron{
 
 			for(int layer_idx = layer_count - 2; layer_idx >= 0; --layer_idx){
 				output_base -= layer_size[layer_idx];
-				weight_base -= (layer_size[layer_idx-1]+1) * layer_size[layer_idx];
+				//The number of weights of this layer. The input layer has no weights.
+				int const weight_count = layer_idx > 0 ? (layer_size[layer_idx-1]+1) * layer_size[layer_idx] : 0;
+				weight_base -= weight_count;
 				for(int neuron_idx = 0; neuron_idx <= layer_size[layer_idx]; ++neuron_idx){
 					double neuron_error = 0;
 					double current_neuron_output = 1;
@@ -175,7 +177,7 @@ class MultiLayerPerceptron{
 					for(int weight_idx = 0; weight_idx < layer_size[layer_idx+1]; ++weight_idx){
 
 						int neuron_next_layer = output_base + layer_size[layer_idx] + weight_idx;
-						int weight_next_layer = weight_base + (layer_size[layer_idx-1]+1) * layer_size[layer_idx] + weight_idx * (layer_size[layer_idx]+1) + neuron_idx;
+						int weight_next_layer = weight_base + weight_count + weight_idx * (layer_size[layer_idx]+1) + neuron_idx;
 						neuron_error += neuron_output[neuron_next_layer] * weights[weight_next_layer];
 					}
 					neuron_error *= func::derivative(current_neuron_output);
@@ -184,7 +186,7 @@ class MultiLayerPerceptron{
 					for(int weight_idx = 0; weight_idx < layer_size[layer_idx+1]; ++weight_idx){
 
 						int neuron_next_layer = output_base + layer_size[layer_idx] + weight_idx;
-						int weight_next_layer = weight_base + (layer_size[layer_idx-1]+1) * layer_size[layer_idx] + weight_idx * (layer_size[layer_idx]+1) + neuron_idx;
+						int weight_next_layer = weight_base + weight_count + weight_idx * (layer_size[layer_idx]+1) + neuron_idx;
 						double d_weight = - learning_rate * current_neuron_output * neuron_output[neuron_next_layer];
 						weights[weight_next_layer] += d_weight;
 					}
-- 
2.43.0


From 2be50cff6ab034b0fcb66e71c9dd893d92ea4ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:48 +0000
Subject: [PATCH 29/64] fix: Mondrian forests return true from train when every
 tree is trained

The variable was not initialised.
---
 src/mondrian.hpp         | 2 +-
 src/mondrian_unbound.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index 35727db..f99f7d1 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -448,7 +448,7 @@ class MondrianForest{
 	 * @param label The label of the data point.
 	 */
 	bool train(feature_type const* features, int const label){
-		bool fully_trained;
+		bool fully_trained = true;
 		for(int i = 0; i < tree_count; ++i){
 			bool has_trained = train_tree(features, label, i);
 			if(!has_trained)
diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index 7a8135b..879a948 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -459,7 +459,7 @@ class MondrianForestUnbound{
 	 * @param label The label of the data point.
 	 */
 	bool train(feature_type const* features, int const label){
-		bool fully_trained;
+		bool fully_trained = true;
 		for(int i = 0; i < tree_count; ++i){
 			bool has_trained = train_tree(features, label, i);
 			if(!has_trained)
-- 
2.43.0


From 14f231c98d666c88e7c8762aeb0ae086e8978665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 30/64] fix: Mondrian forests write the scores that predict is
 asked for

---
 src/mondrian.hpp         | 3 +++
 src/mondrian_unbound.hpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index f99f7d1..2fc310b 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -479,6 +479,9 @@ class MondrianForest{
 		//Then we divide by the number trees.
 		for(int k = 0; k < label_count; ++k)
 			sum_posterior_mean[k] /= static_cast<double>(tree_count);
+		if(scores != nullptr)
+			for(int k = 0; k < label_count; ++k)
+				scores[k] = sum_posterior_mean[k];
 
 		//Finally, we look for the best label
 		int best = 0;
diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index 879a948..ec43bdc 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -488,6 +488,9 @@ class MondrianForestUnbound{
 		//Then we divide by the number trees.
 		for(int k = 0; k < label_count; ++k)
 			sum_posterior_mean[k] /= static_cast<double>(tree_count);
+		if(scores != nullptr)
+			for(int k = 0; k < label_count; ++k)
+				scores[k] = sum_posterior_mean[k];
 
 		//Finally, we look for the best label
 		int best = 0;
-- 
2.43.0


From 69d673c6d2b5fa4178813afaae21e4315f7f5778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:51 +0000
Subject: [PATCH 31/64] fix: MondrianForest::train fails when there is no node
 left for a root

---
 src/mondrian.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index 2fc310b..380cfa8 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -282,6 +282,8 @@ class MondrianForest{
 		if (root_id == EMPTY_NODE){ //The root of the tree does not exist yet
 			//Pick a new node
 			root_id = available_node();
+			if(root_id == EMPTY_NODE) //There is no memory left for this tree
+				return false;
 
 			//Initialize this node as the root for this tree
 			roots[tree_id] = root_id;
-- 
2.43.0


From ba93f6dfab28f9add66af2ac94c40d663607cb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:52 +0000
Subject: [PATCH 32/64] fix: MondrianForest gives back a node it cannot use

With a single node left, a split took it for the new parent and lost it when there
was none for the sibling.
---
 src/mondrian.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index 380cfa8..d3cf948 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -217,6 +217,9 @@ class MondrianForest{
 					sample_block(new_sibling, features, label);
 				}
 				else{
+					//The new parent is of no use without a sibling: make it available again
+					nodes[new_parent].split_dimension = EMPTY_NODE;
+					nodes[new_parent].tau = EMPTY_NODE;
 					update_box = true;
 				}
 			}
-- 
2.43.0


From 94961b909b7eb407e51b653f54174241be879b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 33/64] fix: CoarseMondrianForest initialises the sums of its
 features and the size of its trees

---
 src/mondrian_coarse.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 20057d6..d28ae3f 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -212,6 +212,7 @@ struct TreeBase{
 	void reset(int const node_limit=1){
 		root = EMPTY_ROOT;
 		node_count_limit = node_limit;
+		size = 0;
 		statistics.reset();
 		sum_contribution = 0;
 		count_contribution = 0;
@@ -255,7 +256,7 @@ double lifetime;
 double base_measure;
 //The discount factor parameter
 double discount_factor;
-double sum_features[feature_count]; //Sum of all data points
+double sum_features[feature_count] = {0}; //Sum of all data points
 double count_points = 0; // count of points for the average point
 double fading_count = 1;//fading factor for the average point
 double nodes_fading_f = 0.995; //Fading factor of node
-- 
2.43.0


From 443b30fc7b74f2c943d852f90c403a0e002c98fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:11 +0000
Subject: [PATCH 34/64] fix: CoarseMondrianForest writes the scores that
 predict is asked for

---
 src/mondrian_coarse.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index d28ae3f..7fb5969 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -3288,6 +3288,9 @@ int predict(feature_type const* features, double* scores = nullptr, int tree_to_
 	//Then we divide by the number trees.
 	for(int k = 0; k < label_count; ++k)
 		sum_posterior_mean[k] /= tree_used;
+	if(scores != nullptr)
+		for(int k = 0; k < label_count; ++k)
+			scores[k] = sum_posterior_mean[k];
 
 	//Finally, we look for the best label
 	return Utils::index_max(sum_posterior_mean, label_count);
-- 
2.43.0


From abedf83cab90373712d2052e577e5c5de3fd80bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 35/64] fix: CoarseMondrianForest grows with EXTEND_NONE, its
 default, until its memory is full

It ignored every data point but the first one, and returned true.
---
 src/mondrian_coarse.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 7fb5969..84219f4 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2061,6 +2061,8 @@ bool train_tree(feature_type const* features, int const label, int const tree_id
 			extend_block0(root_id, tree_id, features, label);
 		else if(extend_type == EXTEND_NONE && node_available <= 2)
 			ret = false;
+		else if(extend_type == EXTEND_NONE) //There is still memory: nothing special to do yet
+			extend_block0(root_id, tree_id, features, label);
 		else if(extend_type == EXTEND_PARTIAL_UPDATE)
 			extend_block2(root_id, tree_id, features, label);
 		else if(extend_type == EXTEND_GHOST)
-- 
2.43.0


From bf433e5eb46a824ab114928cb1290a6aab0253ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:17 +0000
Subject: [PATCH 36/64] fix: a CoarseMondrianForest without size limit, the
 default, can split

The default limit of -1 was used as a depth, which no tree fits in.
---
 src/mondrian_coarse.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 84219f4..0219c2b 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2867,6 +2867,9 @@ CoarseMondrianForest(double const lifetime, double const base_measure, double co
 	this->node_count = (remaining_memory - (remaining_memory%sizeof(Node))) / sizeof(Node);
 	this->node_available = node_count;
 	this->maximum_tree_count = (node_count - node_count%7)/7;
+	//Without a limit, the depth of a tree is limited by the number of nodes
+	if((tree_management == COBBLE_MANAGEMENT || tree_management == OPTIMISTIC_COBBLE_MANAGEMENT) && size_limit <= 0)
+		size_limit = node_count;
 	//Init all roots as empty
 	TreeBase* bases = tree_bases();
 	for(int i = 0; i < tree_count; ++i)
-- 
2.43.0


From f57f195ac7a2beae3ee2e162dd637b634a3a7e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:20 +0000
Subject: [PATCH 37/64] fix: EXTEND_COUNTER_NO_UPDATE counts a data point that
 makes a split only once

---
 src/mondrian_coarse.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 0219c2b..ac1caf5 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -780,6 +780,7 @@ void extend_block3(int const node_id, int const tree_id, feature_type const* fea
 		}
 
 		sample_block(new_sibling, features, label);
+		return; //The data point is in the new sibling, do not count it in the current node too
 	}
 	else if(E < 0 || parent_tau + E > node.tau){ //Otherwise, just update the box
 		//update lower bound and upper bound of this node
-- 
2.43.0


From d6c082927e893f4da9de53fb09c4bf5785102386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 38/64] fix: Mondrian forests with float features pick a
 dimension among those that extend the box

The sum of float extensions is not the sum of the double probabilities, so the last
probability could be below 1 and the dimension picked out of range.
---
 src/mondrian.hpp         |  2 +-
 src/mondrian_coarse.hpp  | 16 ++++++++--------
 src/mondrian_unbound.hpp |  2 +-
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index d3cf948..41b4285 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -142,7 +142,7 @@ class MondrianForest{
 		double const E = sum == 0 ?  -1 : Utils::rand_exponential<func>(sum);
 		bool update_box = false;
 		if(E >= 0 && parent_tau + E < node.tau){//Introduce a new parent and a new sibling
-			Utils::turn_array_into_probability(probabilities, feature_count, sum);
+			Utils::turn_array_into_probability(probabilities, feature_count);
 			//sample features with probability proportional to e_lower[i] + e_upper[i]
 			int dimension = Utils::pick_from_distribution<func>(probabilities, feature_count);
 			if(dimension >= feature_count || dimension < 0){
diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index ac1caf5..125e03a 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -333,7 +333,7 @@ void extend_block0(int const node_id, int const tree_id, feature_type const* fea
 	}
 
 	if(E >= 0 && parent_tau + E < node.tau && node_available >= 2 && !pause_expension){//Introduce a new parent and a new sibling
-		Utils::turn_array_into_probability(probabilities, feature_count, sum);
+		Utils::turn_array_into_probability(probabilities, feature_count);
 		//sample features with probability proportional to e_lower[i] + e_upper[i]
 		int const dimension = Utils::pick_from_distribution<func>(probabilities, feature_count);
 
@@ -458,7 +458,7 @@ void extend_block2(int const node_id, int const tree_id, feature_type const* fea
 	}
 
 	if(E >= 0 && parent_tau + E < node.tau && node_available >= 2 && !pause_expension){//Introduce a new parent and a new sibling
-		Utils::turn_array_into_probability(probabilities, feature_count, sum);
+		Utils::turn_array_into_probability(probabilities, feature_count);
 		//sample features with probability proportional to e_lower[i] + e_upper[i]
 		int const dimension = Utils::pick_from_distribution<func>(probabilities, feature_count);
 
@@ -583,7 +583,7 @@ void extend_block1(int const node_id, int const tree_id, feature_type const* fea
 	}
 
 	if(E >= 0 && parent_tau + E < node.tau && node_available >= 2 && !pause_expension){//Introduce a new parent and a new sibling
-		Utils::turn_array_into_probability(probabilities, feature_count, sum);
+		Utils::turn_array_into_probability(probabilities, feature_count);
 		//sample features with probability proportional to e_lower[i] + e_upper[i]
 		int const dimension = Utils::pick_from_distribution<func>(probabilities, feature_count);
 
@@ -712,7 +712,7 @@ void extend_block3(int const node_id, int const tree_id, feature_type const* fea
 	}
 
 	if(E >= 0 && parent_tau + E < node.tau && node_available >= 2 && !pause_expension){//Introduce a new parent and a new sibling
-		Utils::turn_array_into_probability(probabilities, feature_count, sum);
+		Utils::turn_array_into_probability(probabilities, feature_count);
 		//sample features with probability proportional to e_lower[i] + e_upper[i]
 		int const dimension = Utils::pick_from_distribution<func>(probabilities, feature_count);
 
@@ -905,7 +905,7 @@ void extend_node(int const node_id, int const tree_id, feature_type const* featu
 		Node& node = nodes()[node_id];
 		int new_parent_id, new_sibling_id;
 		bool current_node_on_left = true;
-		Utils::turn_array_into_probability(probabilities, feature_count, sum);
+		Utils::turn_array_into_probability(probabilities, feature_count);
 		//sample features with probability proportional to e_lower[i] + e_upper[i]
 		int const dimension = Utils::pick_from_distribution<func>(probabilities, feature_count);
 
@@ -988,7 +988,7 @@ void split_node(int const node_id, int const tree_id, feature_type const* featur
 		probabilities[i] = node.bound_upper[i] - node.bound_lower[i];
 		sum += probabilities[i];
 	}
-	Utils::turn_array_into_probability(probabilities, feature_count, sum);
+	Utils::turn_array_into_probability(probabilities, feature_count);
 	//sample features with probability proportional to e_lower[i] + e_upper[i]
 	int const dimension = Utils::pick_from_distribution<func>(probabilities, feature_count);
 
@@ -1125,7 +1125,7 @@ bool split_barycenter(int const node_id, int const tree_id, feature_type const*
 		return false;
 	}
 
-	Utils::turn_array_into_probability(probabilities, feature_count, sum);
+	Utils::turn_array_into_probability(probabilities, feature_count);
 	//sample features with probability proportional to e_lower[i] + e_upper[i]
 	int const dimension = Utils::pick_from_distribution<func>(probabilities, feature_count);
 
@@ -1933,7 +1933,7 @@ void split_leaf(int const node_id, int const tree_id, bool const proportianal =
 		probabilities[i] = node.bound_upper[i] - node.bound_lower[i];
 		sum += probabilities[i];
 	}
-	Utils::turn_array_into_probability(probabilities, feature_count, sum);
+	Utils::turn_array_into_probability(probabilities, feature_count);
 	//sample features with probability proportional to e_lower[i] + e_upper[i]
 	int const dimension = Utils::pick_from_distribution<func>(probabilities, feature_count);
 
diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index ec43bdc..8b1c8a0 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -246,7 +246,7 @@ class MondrianForestUnbound{
 		double const E = sum == 0 ?  -1 : Utils::rand_exponential<func>(sum);
 		bool update_box = false;
 		if(E >= 0 && parent_tau + E < node->tau){//Introduce a new parent and a new sibling
-			Utils::turn_array_into_probability(probabilities, feature_count, sum);
+			Utils::turn_array_into_probability(probabilities, feature_count);
 			//sample features with probability proportional to e_lower[i] + e_upper[i]
 			int const dimension = Utils::pick_from_distribution<func>(probabilities, feature_count);
 
-- 
2.43.0


From 0ac68077e73a003c36995494461789ab8fdfaf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:53 +0000
Subject: [PATCH 39/64] fix: CoarseMondrianForest compiles with features that
 are not double

---
 src/mondrian_coarse.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 125e03a..592342b 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -1013,8 +1013,8 @@ void split_node(int const node_id, int const tree_id, feature_type const* featur
 	//Set the box for the new children and the new_parent and the node (depending on the values in features
 	//The current datapoint is passed through after readjusting counters and shape
 	for(int i = 0; i < feature_count; ++i){
-		new_parent.bound_lower[i] = Utils::min(node.bound_lower[i], features[i]);
-		new_parent.bound_upper[i] = Utils::max(node.bound_upper[i], features[i]);
+		new_parent.bound_lower[i] = Utils::min<double>(node.bound_lower[i], features[i]);
+		new_parent.bound_upper[i] = Utils::max<double>(node.bound_upper[i], features[i]);
 		new_sibling.bound_lower[i] = node.bound_lower[i];
 		new_sibling.bound_upper[i] = node.bound_upper[i];
 	}
@@ -1130,8 +1130,8 @@ bool split_barycenter(int const node_id, int const tree_id, feature_type const*
 	int const dimension = Utils::pick_from_distribution<func>(probabilities, feature_count);
 
 	//Select the bound to choose the split from
-	double lower_value = Utils::min(barycenter[dimension], features[dimension]);
-	double upper_value = Utils::max(barycenter[dimension], features[dimension]);
+	double lower_value = Utils::min<double>(barycenter[dimension], features[dimension]);
+	double upper_value = Utils::max<double>(barycenter[dimension], features[dimension]);
 
 	//sample the split between [lower_value, upper_value]
 	double const random_value = func::rand_uniform();
@@ -1151,8 +1151,8 @@ bool split_barycenter(int const node_id, int const tree_id, feature_type const*
 	//Set the box for the new children and the new_parent and the node (depending on the values in features
 	//The current datapoint is passed through after readjusting counters and shape
 	for(int i = 0; i < feature_count; ++i){
-		new_parent.bound_lower[i] = Utils::min(node.bound_lower[i], features[i]);
-		new_parent.bound_upper[i] = Utils::max(node.bound_upper[i], features[i]);
+		new_parent.bound_lower[i] = Utils::min<double>(node.bound_lower[i], features[i]);
+		new_parent.bound_upper[i] = Utils::max<double>(node.bound_upper[i], features[i]);
 		new_sibling.bound_lower[i] = node.bound_lower[i];
 		new_sibling.bound_upper[i] = node.bound_upper[i];
 	}
@@ -1514,8 +1514,8 @@ int pass_data_point_down(int const start_id, feature_type const* features, int c
 		Node& node = nodes()[node_id];
 		//Update box size
 		for(int i = 0; i < feature_count; ++i){
-			double const lower = Utils::min(node.bound_lower[i], features[i]);
-			double const upper = Utils::max(node.bound_upper[i], features[i]);
+			double const lower = Utils::min<double>(node.bound_lower[i], features[i]);
+			double const upper = Utils::max<double>(node.bound_upper[i], features[i]);
 			node.bound_lower[i] = lower;
 			node.bound_upper[i] = upper;
 		}
-- 
2.43.0


From 3ce146e7cf7b6e286a462b99b1f39b2d5512cc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:26 +0000
Subject: [PATCH 40/64] fix: the discount of a Mondrian node decays with its
 time

A discount factor above zero made it grow beyond 1: posterior means became
negative, and a forest trained with a single label predicted another one.
---
 src/mondrian.hpp         | 2 +-
 src/mondrian_coarse.hpp  | 2 +-
 src/mondrian_unbound.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index 41b4285..5a921b4 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -312,7 +312,7 @@ class MondrianForest{
 	void compute_posterior_mean(Node const& node, double *posterior_mean) const{
 		//posterior_mean start with the parent posterior_mean and the function updates to the current node
 		double const parent_tau = node.parent >= 0 ? nodes[node.parent].tau : 0; //The tau value of the parent of the root is 0
-		double const node_discount = func::exp(discount_factor * (node.tau - parent_tau));
+		double const node_discount = func::exp(-discount_factor * (node.tau - parent_tau));
 		double sum_counters = 0;
 		double sum_tab = 0;
 		double tab[label_count];
diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 592342b..0118ecf 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2083,7 +2083,7 @@ bool train_tree(feature_type const* features, int const label, int const tree_id
 void compute_posterior_mean(Node const& node, double *posterior_mean) const{
 	//posterior_mean start with the parent posterior_mean and the function updates to the current node
 	double const parent_tau = node.parent >= 0 ? nodes()[node.parent].tau : 0; //The tau value of the parent of the root is 0
-	double const node_discount = func::exp(discount_factor * (node.tau - parent_tau));
+	double const node_discount = func::exp(-discount_factor * (node.tau - parent_tau));
 	double sum_counters = 0;
 	double sum_tab = 0;
 	double tab[label_count];
diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index 8b1c8a0..d2fe2f3 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -91,7 +91,7 @@ class MondrianForestUnbound{
 	void compute_posterior_mean(double *posterior_mean, double const discount_factor) const{
 		//posterior_mean start with the parent posterior_mean and the function updates to the current node
 		double const parent_tau = this->parent != nullptr ? this->parent->tau : 0; //The tau value of the parent of the root is 0
-		double const node_discount = func::exp(discount_factor * (this->tau - parent_tau));
+		double const node_discount = func::exp(-discount_factor * (this->tau - parent_tau));
 		double sum_counters = 0;
 		double sum_tab = 0;
 		double tab[label_count];
-- 
2.43.0


From 1a6acd6e290a41a81c91780a8f0d929b27d1b383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:26 +0000
Subject: [PATCH 41/64] fix: Mondrian scores outside of a box discount the mean
 of the parent

The mean of the parent was added with a weight of one instead of the discount
(as in compute_posterior_mean), so scores could exceed 1.
---
 src/mondrian.hpp         | 2 +-
 src/mondrian_coarse.hpp  | 2 +-
 src/mondrian_unbound.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index 5a921b4..6e2e795 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -375,7 +375,7 @@ class MondrianForest{
 
 				for(int l = 0; l < label_count; ++l){
 					//posterior_means of the parent of current_node
-					double const posterior_mean = (1/c_sum) * (c[l] - new_node_discount * c[l] + c_sum * posterior_means[l]);
+					double const posterior_mean = (1/c_sum) * (c[l] - new_node_discount * c[l] + new_node_discount * c_sum * posterior_means[l]);
 					//Note that *posterior_mean* is the value for the hypothetical parent
 					smoothed_posterior_means[l] += probability_not_separated_yet * probability_of_branching * posterior_mean;
 				}
diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 0118ecf..239781f 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2149,7 +2149,7 @@ void predict_tree(feature_type const* features, int const tree_id, double* poste
 
 			for(int l = 0; l < label_count; ++l){
 				//posterior_means of the parent of current_node
-				double const posterior_mean = (1/c_sum) * (c[l] - new_node_discount * c[l] + c_sum * posterior_means[l]);
+				double const posterior_mean = (1/c_sum) * (c[l] - new_node_discount * c[l] + new_node_discount * c_sum * posterior_means[l]);
 				//Note that *posterior_mean* is the value for the hypothetical parent
 				smoothed_posterior_means[l] += probability_not_separated_yet * probability_of_branching * posterior_mean;
 			}
diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index d2fe2f3..fddda4c 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -412,7 +412,7 @@ class MondrianForestUnbound{
 
 				for(int l = 0; l < label_count; ++l){
 					//posterior_means of the parent of current_node
-					double const posterior_mean = (1/c_sum) * (c[l] - new_node_discount * c[l] + c_sum * posterior_means[l]);
+					double const posterior_mean = (1/c_sum) * (c[l] - new_node_discount * c[l] + new_node_discount * c_sum * posterior_means[l]);
 					//Note that *posterior_mean* is the value for the hypothetical parent
 					smoothed_posterior_means[l] += probability_not_separated_yet * probability_of_branching * posterior_mean;
 				}
-- 
2.43.0


From 90f1bad4ceaa3a22db370224c94760587ae2418a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:27 +0000
Subject: [PATCH 42/64] fix: Mondrian predictions use the split time of the
 parent of each node

parent_tau stayed 0, so a query outside of the boxes branched off at a node as
if the time spent at its ancestors belonged to that node too.
---
 src/mondrian.hpp         | 1 +
 src/mondrian_coarse.hpp  | 1 +
 src/mondrian_unbound.hpp | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index 6e2e795..97b2794 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -391,6 +391,7 @@ class MondrianForest{
 				break;
 			}
 			probability_not_separated_yet *= (1 - probability_of_branching);
+			parent_tau = current_node.tau;
 
 			//Otherwise, the child is picked based on the split of the node
 			if(features[current_node.split_dimension] <= current_node.split_value)
diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 239781f..156458e 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2166,6 +2166,7 @@ void predict_tree(feature_type const* features, int const tree_id, double* poste
 			break;
 		}
 		probability_not_separated_yet *= (1 - probability_of_branching);
+		parent_tau = current_node.tau;
 
 		//Otherwise, the child is picked based on the split of the node
 		if(features[current_node.split_dimension] <= current_node.split_value)
diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index fddda4c..0ef7a1f 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -429,6 +429,7 @@ class MondrianForestUnbound{
 			}
 			InternalNode* inode = dynamic_cast<InternalNode*>(current_node);
 			probability_not_separated_yet *= (1 - probability_of_branching);
+			parent_tau = current_node->tau;
 
 			//Otherwise, the child is picked based on the split of the node
 			if(inode->point_go_left(features))
-- 
2.43.0


From 13df28e0526a44a9c0bc421f4722c72fa4194a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:50 +0000
Subject: [PATCH 43/64] fix: splitting a node of the coarse Mondrian forest
 loses data points and nodes

With a split trigger, a leaf whose data points all have the same value was taken for
an empty one and removed with its counters, a node below it could stay in use without
belonging to a tree, and the rounding of the counters could add data points. A child is
now removed only if it is a leaf without data points that is out of the box, and the
counters of the two sides always sum to the counter before the split.
---
 src/mondrian_coarse.hpp | 56 +++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 22 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 156458e..2db8b5c 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -1308,6 +1308,15 @@ int count_sides(int const start_id, int const split_dimension, double const spli
 		return -1;
 	return 0;
 }
+bool is_zeroed(int const node_id, int const split_dimension, double const split_value) const{
+	Node const& node = nodes()[node_id];
+	if(!node.is_leaf() || node.bound_lower[split_dimension] != split_value || node.bound_upper[split_dimension] != split_value)
+		return false;
+	for(int i = 0; i < label_count; ++i)
+		if(node.counters[i] != 0)
+			return false;
+	return true;
+}
 template<int max_stack_size=100>
 int adjust_boxes(int const start_id, int const split_dimension, double const split_value, bool const subtree_on_left, int const tree_id){
 	//Initialize an array to keep track of where we have to go at each tree level.
@@ -1337,18 +1346,9 @@ int adjust_boxes(int const start_id, int const split_dimension, double const spl
 					if(node.bound_lower[split_dimension] < split_value)
 						node.bound_lower[split_dimension] = split_value;
 				}
-				if(node.bound_upper[split_dimension] - node.bound_lower[split_dimension] == 0){ //This box is zero, let's go up
-					depth -= 1;
-					node_id = node.parent;
-					node_reset(node.child_right);
-					node_reset(node.child_left);
-					//NOTE the start_id node shouldn't be at zero.
-				}
-				else{ //Go right
-					stack[depth] = 0;
-					depth += 1;
-					node_id = node.child_right;
-				}
+				stack[depth] = 0;
+				depth += 1;
+				node_id = node.child_right;
 			}
 			else if (stack[depth] == 0){ //Go left
 				stack[depth] = 1;
@@ -1360,13 +1360,24 @@ int adjust_boxes(int const start_id, int const split_dimension, double const spl
 				depth -= 1;
 				i += 1;
 
-				Node const& child_left = nodes()[node.child_left];
-				Node const& child_right = nodes()[node.child_right];
-				int const left_zeroed = (child_left.bound_upper[split_dimension] - child_left.bound_lower[split_dimension] == 0);
-				int const right_zeroed = (child_right.bound_upper[split_dimension] - child_right.bound_lower[split_dimension] == 0);
+				//A child is zeroed when it is a leaf and nothing of it is left on this side of the split
+				bool const left_zeroed = is_zeroed(node.child_left, split_dimension, split_value);
+				bool const right_zeroed = is_zeroed(node.child_right, split_dimension, split_value);
 				bool const is_root = (node.parent < 0);
 				bool const is_starting = (node_id == start_id);
-				//NOTE either left or right is zeroed. If both are, then we stop going down at that node before
+				if(left_zeroed && right_zeroed){ //Nothing is left below the current node, so it becomes a zeroed leaf
+					nodes()[node.child_left].reset();
+					nodes()[node.child_right].reset();
+					node_available += 2;
+					node.chop();
+					node.tau = lifetime;
+					for(int l = 0; l < label_count; ++l)
+						node.counters[l] = 0;
+					if(is_starting)
+						break;
+					node_id = node.parent;
+					continue;
+				}
 				int replacer_id = -1, other_id = -1;
 				if(left_zeroed){ //replace current node with right
 					replacer_id = node.child_right;
@@ -1482,16 +1493,17 @@ int adjust_counters(int const start_id, int split_dimension, double split_value,
 			//Compute size of box
 			double const max_value = node.bound_upper[split_dimension] - node.bound_lower[split_dimension];
 			//Get the percentage on the left (below the split value)
-			double percentage = Utils::min(Utils::max((split_value - node.bound_lower[split_dimension]) / max_value, 0.0), 1.0);
+			double percentage;
+			if(max_value == 0) //All the data points have the same value, so they go to the same side
+				percentage = node.bound_lower[split_dimension] <= split_value ? 1.0 : 0.0;
+			else
+				percentage = Utils::min(Utils::max((split_value - node.bound_lower[split_dimension]) / max_value, 0.0), 1.0);
 			//If this sub-tree is not on the left, invert percentage
 			if(!discharge_left)
 				percentage = 1 - percentage;
 			for(int i = 0; i < label_count; ++i){
 				int counter_out = Utils::round(static_cast<double>(node.counters[i]) * percentage);
-				int counter_in = Utils::round(static_cast<double>(node.counters[i]) * (1 - percentage));
-				int const err = node.counters[i] - counter_in - counter_out;
-				if(err != 0)
-					cout << "Error counters" << endl;
+				int counter_in = node.counters[i] - counter_out;
 				to_remove[i] += counter_out;
 				node.counters[i] = counter_in;
 			}
-- 
2.43.0


From 8319f152640afe749d84f09d2609d1f51e05507e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:50 +0000
Subject: [PATCH 44/64] fix: splitting a node that is a single point reads out
 of its box

There is no feature to split on, so the feature after the last one was used. The node is
extended instead.
---
 src/mondrian_coarse.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 2db8b5c..41762e5 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -984,10 +984,14 @@ void split_node(int const node_id, int const tree_id, feature_type const* featur
 	int new_parent_id, new_sibling_id;
 	double sum = 0;
 	Node& node = nodes()[node_id];
-	for(int i = 0; i < feature_count; ++i){
-		probabilities[i] = node.bound_upper[i] - node.bound_lower[i];
-		sum += probabilities[i];
+	for(int i = 0; i < feature_count; ++i)
+		sum += node.bound_upper[i] - node.bound_lower[i];
+	if(sum == 0){ //The box is a single point: there is nothing to split
+		extend_node(node_id, tree_id, features, label, parent_id, parent_tau, probabilities, E, sum);
+		return;
 	}
+	for(int i = 0; i < feature_count; ++i)
+		probabilities[i] = node.bound_upper[i] - node.bound_lower[i];
 	Utils::turn_array_into_probability(probabilities, feature_count);
 	//sample features with probability proportional to e_lower[i] + e_upper[i]
 	int const dimension = Utils::pick_from_distribution<func>(probabilities, feature_count);
-- 
2.43.0


From 1c1afdb5a5601c5ccc96f2eae250e15b14cffaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:51 +0000
Subject: [PATCH 45/64] fix: a leaf without data points makes the scores of the
 coarse Mondrian forest NaN

The split of a node can leave one side without data points. Like for a label that has not
been seen, the mean of the parent is kept.
---
 src/mondrian_coarse.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 41762e5..3bee71d 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2165,7 +2165,9 @@ void predict_tree(feature_type const* features, int const tree_id, double* poste
 
 			for(int l = 0; l < label_count; ++l){
 				//posterior_means of the parent of current_node
-				double const posterior_mean = (1/c_sum) * (c[l] - new_node_discount * c[l] + new_node_discount * c_sum * posterior_means[l]);
+				double posterior_mean = posterior_means[l];
+				if(c_sum > 0) //A node without any count does not tell anything
+					posterior_mean = (1/c_sum) * (c[l] - new_node_discount * c[l] + new_node_discount * c_sum * posterior_means[l]);
 				//Note that *posterior_mean* is the value for the hypothetical parent
 				smoothed_posterior_means[l] += probability_not_separated_yet * probability_of_branching * posterior_mean;
 			}
-- 
2.43.0


From dfeec4c47bc495787d14e31b483c6a7f086bfea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:51 +0000
Subject: [PATCH 46/64] fix: count_sides counts the leaves beside the split on
 the wrong side

A leaf below the split value is on its left, as for the leaves that are cut by the split.
---
 src/mondrian_coarse.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 3bee71d..da9e30a 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -1296,9 +1296,9 @@ int count_sides(int const start_id, int const split_dimension, double const spli
 				count_left += left;
 				count_right += right;
 			}
-			else if(split_value <= lower)
-				count_left += count;
 			else if(split_value >= upper)
+				count_left += count;
+			else if(split_value <= lower)
 				count_right += count;
 
 			if(node_id == start_id)
-- 
2.43.0


From e913cc970269bf7021f2a0ef94fecdf123378332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:51 +0000
Subject: [PATCH 47/64] fix: eval_scores returns 0 when the label 0 is well
 predicted

The second class was searched from the label itself when that label is 0.
---
 src/mondrian_coarse.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index da9e30a..bc837ac 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -3275,9 +3275,9 @@ void scory(feature_type const* features, int const label){
 }
 double eval_scores(double const* score, int const label) const{
 	int idx_max = Utils::index_max(score, label_count); //Find the predicted label
-	if(idx_max == label){ //The label is the one predicted, so we get the second class
-		idx_max = 0;
-		for(int i = 1; i < label_count; ++i)
+	if(idx_max == label && label_count > 1){ //The label is the one predicted, so we get the second class
+		idx_max = label == 0 ? 1 : 0;
+		for(int i = idx_max + 1; i < label_count; ++i)
 			if(i != label && score[i] > score[idx_max])
 				idx_max = i;
 	}
-- 
2.43.0


From e7910072e4193a079c795f3a300bf57633ac929a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:10 +0000
Subject: [PATCH 48/64] fix: the printed scores of the coarse Mondrian forest
 are those of its last tree

They are now the average of the trees, as in predict. Like in predict, printing must not
recount the labels of the nodes with EXTEND_GHOST (it changed what the forest predicts),
and a tree without a root has no node to print.
---
 src/mondrian_coarse.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index bc837ac..51c2d62 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -3078,7 +3078,8 @@ void otter(feature_type const* features, int const label){
 	double full_score[label_count];
 	int depths[tree_count];
 	//Update internal count
-	update_posterior_count();
+	if(extend_type != EXTEND_GHOST)
+		update_posterior_count();
 
 	//Set everything to 0
 	for(int i = 0; i < tree_count; ++i)
@@ -3248,13 +3249,15 @@ void tree_printy(int const tree_id, int const start_id) const{
 }
 void printy(void) const{
 	for(int i = 0; i < tree_count; ++i)
-		tree_printy(i, tree_bases()[i].root);
+		if(!tree_bases()[i].is_empty())
+			tree_printy(i, tree_bases()[i].root);
 }
 void scory(feature_type const* features, int const label){
 	double scores[label_count];
-	double sum_scores[label_count];
+	double sum_scores[label_count] = {0};
 
-	update_posterior_count();
+	if(extend_type != EXTEND_GHOST)
+		update_posterior_count();
 	for(int i = 0; i < tree_count; ++i){
 		for(int j = 0; j < label_count; ++j)
 			scores[j] = 0;
@@ -3265,7 +3268,7 @@ void scory(feature_type const* features, int const label){
 			cout << "," << scores[j];
 		cout << endl;
 		for(int j = 0; j < label_count; ++j)
-			sum_scores[j] = scores[j];
+			sum_scores[j] += scores[j] / static_cast<double>(tree_count);
 	}
 	int const prediction = Utils::index_max(sum_scores, label_count);
 	cout << "Loutre:" << total_count << "," << -1 << "," << label << "," << prediction;
-- 
2.43.0


From 521f68efeda5d7dcd9f78caecd5d9c6d820f717f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:10 +0000
Subject: [PATCH 49/64] fix: ROBUR_MANAGEMENT does not limit the size of the
 trees

The size of a tree that is compared with its limit was never updated.
---
 src/mondrian_coarse.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 51c2d62..3783e63 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2067,6 +2067,12 @@ bool train_tree(feature_type const* features, int const label, int const tree_id
 	}
 	else{ //Partial fit
 		root_id = base.root;
+		//The size of the tree decides if it is paused
+		if(tree_management == ROBUR_MANAGEMENT || tree_management == PAUSING_PHOENIX_MANAGEMENT){
+			int tree_node_count = 0;
+			int const depth = tree_depth(tree_id, &tree_node_count);
+			base.size = size_type == DEPTH_SIZE ? depth : tree_node_count;
+		}
 		//add the sum of forced_extend, or the total_count
 		int summy = 0;
 		if(fe_split_trigger == SPLIT_TRIGGER_TOTAL)
-- 
2.43.0


From 2a47c5f299c8a493633c0efc2119aed4910b00a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:40 +0000
Subject: [PATCH 50/64] fix: headers compile on their own

Several headers used names of the standard library without including them, so
they compiled only after other headers (also with -DDEBUG).
---
 src/chained_reservoir.hpp | 2 ++
 src/hoeffding_tree.hpp    | 2 ++
 src/mondrian.hpp          | 4 ++++
 src/mondrian_coarse.hpp   | 3 +--
 src/mondrian_unbound.hpp  | 2 +-
 src/naive_bayes.hpp       | 1 +
 6 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/chained_reservoir.hpp b/src/chained_reservoir.hpp
index 8c93965..6acb0e9 100644
--- a/src/chained_reservoir.hpp
+++ b/src/chained_reservoir.hpp
@@ -1,4 +1,6 @@
 #pragma once
+#include <cassert>
+#include <cstddef>
 /**
  * A class that implement the reservoir sampling algorithm.
  *
diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index 0f4bbc4..dd9c243 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -1,4 +1,6 @@
 #pragma once
+#include <cstddef>
+#include <limits>
 /**
  * Implement the Hoeffding Tree algorithm.
  * - feature_type: the type of the feature (int, double, float, short, ...).
diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index 97b2794..b17ee8b 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -1,5 +1,9 @@
 #pragma once
 #include "utils.hpp"
+#ifdef DEBUG
+#include <iostream>
+using namespace std;
+#endif
 
 /**
  * MondrianForest class implements the Mondrian Forest classifier.
diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 3783e63..d30ae30 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -5,8 +5,7 @@
 #include <iostream>
 using namespace std;
 #ifdef DEBUG
-#include <iostream>
-using namespace std;
+#include <cassert>
 #endif
 template<int feature_count, int label_count>
 struct MondrianNode{
diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index 0ef7a1f..e1cd36f 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -208,7 +208,7 @@ class MondrianForestUnbound{
 		}
 	};
 	//The node_id of the roots of each tree
-	vector<MondrianNode*> roots;
+	std::vector<MondrianNode*> roots;
 	//The lifetime parameter
 	double lifetime;
 	//The base measure parameter
diff --git a/src/naive_bayes.hpp b/src/naive_bayes.hpp
index 63062ce..999107c 100644
--- a/src/naive_bayes.hpp
+++ b/src/naive_bayes.hpp
@@ -1,4 +1,5 @@
 #pragma once
+#include <cmath>
 /**
  * NaiveBayes class implements the Naive Bayes classifier.
  * Templates:
-- 
2.43.0


From 971f4bbfd5822f371c26a110984472cdc2bebc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:24 +0000
Subject: [PATCH 51/64] fix: the debug build of the coarse Mondrian forest
 initialises an array of variable size

clang rejects that.
---
 src/mondrian_coarse.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index d30ae30..18eaf17 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2781,7 +2781,9 @@ int tree_checker(int const tree_id) const{
 
 	int node_id = root_id;
 	int depth = 0, max_depth = 1;
-	bool node_visited[node_count] = {false};
+	bool node_visited[node_count];
+	for(int j = 0; j < node_count; ++j)
+		node_visited[j] = false;
 
 	//a for loop instead of a while to avoid infinite loops. Since we don't expect to do more turn than node_count
 	//*i* count the number of node deleted.
-- 
2.43.0


From e427de9d85c7efea09cf4f4e85d9d1b0dcf5696f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:20 +0000
Subject: [PATCH 52/64] fix: with UNBOUND_OPTIMIZE the coarse Mondrian forest
 uses outdated counts

The update of the counts along the branch of a new point left out the node 0 and
the other labels of new nodes, read outside the array for an empty tree, and
overwrote the counts GHOST keeps itself.
---
 src/mondrian_coarse.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 18eaf17..ac32fa5 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2224,13 +2224,17 @@ int get_leaf(int const tree_id, feature_type const* features) const{
  */
 void update_posterior_count(int const tree_id, feature_type const* features, int const label){
 	int node_id = get_leaf(tree_id, features);
-	int const leaf_id = node_id;
+	if(node_id < 0) //The tree is empty
+		return;
 	node_id = nodes()[node_id].parent;
-	while(node_id > 0 && node_id < node_count){
+	while(node_id >= 0 && node_id < node_count){
 		Node& node = nodes()[node_id];
-		int const c_left = Utils::min(1, nodes()[node.child_left].counters[label]);
-		int const c_right = Utils::min(1, nodes()[node.child_right].counters[label]);
-		node.counters[label] = c_left + c_right;
+		//A new node above existing ones needs the counts of all labels
+		for(int i = 0; i < label_count; ++i){
+			int const c_left = Utils::min(1, nodes()[node.child_left].counters[i]);
+			int const c_right = Utils::min(1, nodes()[node.child_right].counters[i]);
+			node.counters[i] = c_left + c_right;
+		}
 		//TODO check validity of that if
 		//if(node.counters[i] == 2)
 			//break;
@@ -2972,7 +2976,8 @@ bool train(feature_type const* features, int const label){
 		if(!has_trained)
 			fully_trained = false;
         #ifdef UNBOUND_OPTIMIZE
-		update_posterior_count(tree_order[i], features, label);
+		if(extend_type != EXTEND_GHOST) //It keeps the counts of all nodes itself
+			update_posterior_count(tree_order[i], features, label);
         #endif
 	}
 	if(node_available <= 1)
-- 
2.43.0


From f46fad1f5050d3a3d3eccaebf3cde72d6a182061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:45 +0000
Subject: [PATCH 53/64] fix: copies of an unbounded Mondrian forest share its
 nodes

The nodes were freed by the original and by every copy.
---
 src/mondrian_unbound.hpp | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index e1cd36f..c74ab59 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -117,6 +117,10 @@ class MondrianForestUnbound{
 		virtual void update_counters(void)=0;
 		virtual long long int get_counters(int const label) const=0;
 		virtual bool is_leaf(void) const =0;
+		/**
+		 * Return a copy of the node and of everything below it.
+		 */
+		virtual MondrianNode* clone(void) const=0;
 		virtual ~MondrianNode(){
 			delete child_left;
 			delete child_right;
@@ -148,6 +152,9 @@ class MondrianForestUnbound{
 		virtual long long int get_counters(int const label) const{
 			return counters[label];
 		}
+		virtual MondrianNode* clone(void) const{
+			return new LeafNode(*this);
+		}
 	};
 	class InternalNode : public MondrianNode{
 		//The features used for the split
@@ -206,6 +213,14 @@ class MondrianForestUnbound{
 		virtual long long int get_counters(int const label) const{
 			return (long long int) counters[label];
 		}
+		virtual MondrianNode* clone(void) const{
+			InternalNode* node = new InternalNode(*this);
+			node->child_left = this->child_left->clone();
+			node->child_left->parent = node;
+			node->child_right = this->child_right->clone();
+			node->child_right->parent = node;
+			return node;
+		}
 	};
 	//The node_id of the roots of each tree
 	std::vector<MondrianNode*> roots;
@@ -453,6 +468,27 @@ class MondrianForestUnbound{
 		//Init all roots as empty
 		roots.resize(tree_count, nullptr);
 	}
+	/**
+	 * Copy constructor. The copy has trees of its own.
+	 */
+	MondrianForestUnbound(MondrianForestUnbound const& src) : roots(src.roots), lifetime(src.lifetime), base_measure(src.base_measure), discount_factor(src.discount_factor),
+			tree_count(src.tree_count), count_internal_nodes(src.count_internal_nodes), count_leaf_nodes(src.count_leaf_nodes), count_data_point(src.count_data_point) {
+		for(MondrianNode*& root : roots)
+			if(root != nullptr)
+				root = root->clone();
+	}
+	MondrianForestUnbound& operator=(MondrianForestUnbound const& src){
+		MondrianForestUnbound copy(src);
+		roots.swap(copy.roots);
+		lifetime = src.lifetime;
+		base_measure = src.base_measure;
+		discount_factor = src.discount_factor;
+		tree_count = src.tree_count;
+		count_internal_nodes = src.count_internal_nodes;
+		count_leaf_nodes = src.count_leaf_nodes;
+		count_data_point = src.count_data_point;
+		return *this;
+	}
 	/**
 	 * Train all trees of the forest with a new data point.
 	 * Return false if a tree has failed to be trained.
-- 
2.43.0


From 9fd9e3aa9d7073c9c119f3b21ef7a5c197e9539e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:45 +0000
Subject: [PATCH 54/64] fix: the nodes of a copied Hoeffding tree belong to the
 original

Training the copy changed the original, or used it after its end.
---
 src/hoeffding_tree.hpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index dd9c243..09cfa63 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -502,6 +502,27 @@ class HoeffdingTree{
 		Node* root = new (*this) Node(*this);
 		this->delta = delta;
 	}
+	/**
+	 * Copy constructor. The nodes of the copy belong to the copy.
+	 */
+	HoeffdingTree(HoeffdingTree const& src){
+		*this = src;
+	}
+	HoeffdingTree& operator=(HoeffdingTree const& src){
+		for(int i = 0; i < max_size; ++i)
+			buffer[i] = src.buffer[i];
+		buffer_offset = src.buffer_offset;
+		buffer_preset = src.buffer_preset;
+		delta = src.delta;
+		for(int i = 0; i < feature_count; ++i)
+			features_size[i] = src.features_size[i];
+		sum_feature_size = src.sum_feature_size;
+		//The nodes point to the tree they belong to
+		Node* nodes = reinterpret_cast<Node*>(buffer);
+		for(size_t i = 0; i < buffer_offset / sizeof(Node); ++i)
+			nodes[i].tree = this;
+		return *this;
+	}
 	/**
 	 * Train all trees of the forest with a new data point.
 	 * Return false if a tree has failed to be trained.
-- 
2.43.0


From 6fd73271eab92db67ad3f296b132f5bdc3228405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:45 +0000
Subject: [PATCH 55/64] fix: copies of a chained reservoir share its chains

An element that one of them added to a chain appeared in the other.
---
 src/chained_reservoir.hpp | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/chained_reservoir.hpp b/src/chained_reservoir.hpp
index 6acb0e9..81594cc 100644
--- a/src/chained_reservoir.hpp
+++ b/src/chained_reservoir.hpp
@@ -98,6 +98,28 @@ class ChainedReservoirSampling{
 			receiver->timestamp = 0;
 		}
 	}
+	/**
+	 * Copy a chain. The nodes the chain already has are used again.
+	 * @param head The head of the chain to write to.
+	 * @param src The head of the chain to copy.
+	 */
+	void copy_chain(node& head, node const& src){
+		node* receiver = &head;
+		for(node const* mover = &src; ; mover = mover->next){
+			receiver->element = mover->element;
+			receiver->timestamp = mover->timestamp;
+			if(mover->next == NULL)
+				break;
+			if(receiver->next == NULL){
+				node* new_element = static_cast<node*>(funct::malloc(sizeof(node)));
+				assert(new_element != NULL);
+				new_element->next = NULL;
+				receiver->next = new_element;
+			}
+			receiver = receiver->next;
+		}
+		clear_chain(receiver->next);
+	}
 	public:
 	/**
 	 * Default constructor.
@@ -111,6 +133,22 @@ class ChainedReservoirSampling{
 		for(int i = 0; i < sample_size; ++i)
 			next[i] = 4294967294; //`next` cannot be negative so to avoid 0 to be assign to all sample, it is set to the maximum for an int
 	}
+	/**
+	 * Copy constructor. The copy has chains of its own.
+	 */
+	ChainedReservoirSampling(ChainedReservoirSampling const& src) : ChainedReservoirSampling() {
+		*this = src;
+	}
+	ChainedReservoirSampling& operator=(ChainedReservoirSampling const& src){
+		if(this == &src)
+			return *this;
+		for(unsigned int i = 0; i < sample_size; ++i){
+			copy_chain(sample[i], src.sample[i]);
+			next[i] = src.next[i];
+		}
+		counter = src.counter;
+		return *this;
+	}
 	/**
 	 * Sample one new element into the sample. This new element may not be added.
 	 * @param e The new element to eventualy add to the sample.
-- 
2.43.0


From 7e465a81a788406b76a7c256aca58ac9ba6a5e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:14 +0000
Subject: [PATCH 56/64] fix: a copied Mondrian forest has no parents in its
 trees

The copy constructor of the nodes left them out.
---
 src/mondrian.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index b17ee8b..fbe34e3 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -58,6 +58,7 @@ class MondrianForest{
 			split_value = src.split_value;
 			child_left = src.child_left;
 			child_right = src.child_right;
+			parent = src.parent;
 			tau = src.tau;
 			for(int i = 0; i < label_count; ++i)
 				counters[i] = src.counters[i];
-- 
2.43.0


From 889fea38944ddf3f495c3702aac431d41f2ac3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:11 +0000
Subject: [PATCH 57/64] fix: the cells of a chained reservoir do not depend on
 timestamps being positive

An element with the timestamp 0 was taken for a free cell, and the first element that followed it overwrote it.
---
 src/chained_reservoir.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/chained_reservoir.hpp b/src/chained_reservoir.hpp
index 81594cc..eda92bf 100644
--- a/src/chained_reservoir.hpp
+++ b/src/chained_reservoir.hpp
@@ -24,6 +24,8 @@ class ChainedReservoirSampling{
 		element_type element;
 		/*The timestamp of the element so we can discard it when it gets obsolete.*/
 		unsigned int timestamp;
+		/*True if the cell does not hold an element. (A timestamp can be 0)*/
+		bool available;
 	};
 	node sample[sample_size];
 	//`next` is not inside the node structure because once next is used for a node, it is not used again
@@ -44,7 +46,7 @@ class ChainedReservoirSampling{
 	 */
 	void clear_chain(node* start){
 		for(node* current = start; current != NULL; current = current->next)
-			current->timestamp = 0;
+			current->available = true;
 	}
 	/** Add a new element in the first available space of a chain.
 	 * If there is no space (and no loop) it run the malloc function given in `funct` to allocate a new space.
@@ -56,9 +58,10 @@ class ChainedReservoirSampling{
 		node* current = &head;
 		//The only thing that could make this loop forever is a corruption the linked list of node that loop over the same data without empty space.
 		while(1){
-			if(current->timestamp == 0){ // This cell is available
+			if(current->available){ // This cell is available
 				current->element = e;
 				current->timestamp = timestamp;
+				current->available = false;
 				return;
 			}
 			if(current->next == NULL){
@@ -67,6 +70,7 @@ class ChainedReservoirSampling{
 				new_element->next = NULL;
 				new_element->element = e;
 				new_element->timestamp = timestamp;
+				new_element->available = false;
 				current->next = new_element;
 				return;
 			}
@@ -85,6 +89,7 @@ class ChainedReservoirSampling{
 		while(1){//TODO add security
 			receiver->element = mover->element;
 			receiver->timestamp = mover->timestamp;
+			receiver->available = mover->available;
 			if(mover->next != NULL){
 				mover = mover->next;
 				receiver = receiver->next;
@@ -95,7 +100,7 @@ class ChainedReservoirSampling{
 		//Once everything is shifted, disable all following cells
 		while(receiver->next != NULL){
 			receiver = receiver->next;
-			receiver->timestamp = 0;
+			receiver->available = true;
 		}
 	}
 	/**
@@ -108,6 +113,7 @@ class ChainedReservoirSampling{
 		for(node const* mover = &src; ; mover = mover->next){
 			receiver->element = mover->element;
 			receiver->timestamp = mover->timestamp;
+			receiver->available = mover->available;
 			if(mover->next == NULL)
 				break;
 			if(receiver->next == NULL){
@@ -129,6 +135,7 @@ class ChainedReservoirSampling{
 		for(struct node& current : sample){
 			current.next = NULL;
 			current.timestamp = 0;
+			current.available = true;
 		}
 		for(int i = 0; i < sample_size; ++i)
 			next[i] = 4294967294; //`next` cannot be negative so to avoid 0 to be assign to all sample, it is set to the maximum for an int
@@ -157,6 +164,7 @@ class ChainedReservoirSampling{
 		if(counter < sample_size){
 			sample[counter].element = e;
 			sample[counter].timestamp = timestamp;
+			sample[counter].available = false;
 			sample[counter].next = NULL;
 			next[counter] = counter + 1 + random_index();
 		}
@@ -204,7 +212,7 @@ class ChainedReservoirSampling{
 			node* current = &head;
 			bool do_shift = true;
 
-			while(current->timestamp <= timestamp){
+			while(current->available || current->timestamp <= timestamp){
 				if(current->next == NULL){
 					do_shift = false;
 					break;
-- 
2.43.0


From 617de2dcdf8802a55dfb326a21aed3fbd02170ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:18 +0000
Subject: [PATCH 58/64] fix: obsolete gives back the cells of chains whose
 elements are all obsolete

They were kept until the chain had a live element, so the memory grew with the stream when everything was declared obsolete.
---
 src/chained_reservoir.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/chained_reservoir.hpp b/src/chained_reservoir.hpp
index eda92bf..02f6088 100644
--- a/src/chained_reservoir.hpp
+++ b/src/chained_reservoir.hpp
@@ -221,6 +221,8 @@ class ChainedReservoirSampling{
 			}
 			if(do_shift && &head != current)
 				shift_chain(head, *current);
+			else if(!do_shift) //Nothing in the chain will ever succeed the head
+				clear_chain(head.next);
 		}
 	}
 };
-- 
2.43.0


From 79eb157b79522be9bedfb6089229dc2b97bfb39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:45 +0000
Subject: [PATCH 59/64] fix: the walks of the coarse Mondrian forest stop at a
 depth of 100

---
 src/mondrian_coarse.hpp | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index ac32fa5..1e3b2d0 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -233,6 +233,8 @@ struct TreeBase{
 };
 private:
 
+//The max depth of a tree: every level but the last has two nodes, except the root (at least one level, to keep the size of the arrays positive)
+static int const MAX_DEPTH = max_size / static_cast<int>(sizeof(Node)) / 2 + 2;
 unsigned char buffer[max_size];
 
 unsigned int total_count = 0;
@@ -1237,7 +1239,7 @@ bool split_barycenter(int const node_id, int const tree_id, feature_type const*
 	}
 	return true;
 }
-template<int max_stack_size=100>
+template<int max_stack_size=MAX_DEPTH>
 int count_sides(int const start_id, int const split_dimension, double const split_value, int& count_left, int& count_right){
 	//Initialize an array to keep track of where we have to go at each tree level.
 	//The max depth expected is MAX_DEPTH.
@@ -1320,7 +1322,7 @@ bool is_zeroed(int const node_id, int const split_dimension, double const split_
 			return false;
 	return true;
 }
-template<int max_stack_size=100>
+template<int max_stack_size=MAX_DEPTH>
 int adjust_boxes(int const start_id, int const split_dimension, double const split_value, bool const subtree_on_left, int const tree_id){
 	//Initialize an array to keep track of where we have to go at each tree level.
 	//The max depth expected is MAX_DEPTH.
@@ -1452,7 +1454,7 @@ int adjust_boxes(int const start_id, int const split_dimension, double const spl
 		return -1;
 	return 0;
 }
-template<int max_stack_size=100>
+template<int max_stack_size=MAX_DEPTH>
 int adjust_counters(int const start_id, int split_dimension, double split_value, bool discharge_left, int* to_remove){
 	//Initialize an array to keep track of where we have to go at each tree level.
 	//The max depth expected is MAX_DEPTH.
@@ -1565,7 +1567,7 @@ int count_fe_down(int const start_id, feature_type const* features) const{
 	count += cnodes[node_id].forced_extend;
 	return count;
 }
-template<int max_stack_size=100>
+template<int max_stack_size=MAX_DEPTH>
 int count_dead_supply(int const start_id){
 	//Initialize an array to keep track of where we have to go at each tree level.
 	//The max depth expected is MAX_DEPTH.
@@ -1631,7 +1633,7 @@ double count_dead_supply_tree(int const tree_id){
 		return 0;
 	return count_dead_supply(root);
 }
-template<int max_stack_size=100>
+template<int max_stack_size=MAX_DEPTH>
 int count_data_point_node(int const start_id){
 	//Initialize an array to keep track of where we have to go at each tree level.
 	//The max depth expected is MAX_DEPTH.
@@ -1693,7 +1695,7 @@ int count_data_point_tree(int const tree_id){
 		return 0;
 	return count_data_point_node(root);
 }
-template<int max_stack_size=100>
+template<int max_stack_size=MAX_DEPTH>
 int find_barycenter(int const start_id, double* avg_features){
 	//Initialize an array to keep track of where we have to go at each tree level.
 	//The max depth expected is MAX_DEPTH.
@@ -1771,7 +1773,7 @@ void tree_trim(){
 			cut_block(id, i);
 	}
 }
-template<int max_stack_size=100>
+template<int max_stack_size=MAX_DEPTH>
 int tree_trim(int const tree_id){
 	TreeBase const& base = tree_bases()[tree_id];
 	int const root_id = base.root;
@@ -1854,7 +1856,7 @@ void tree_fade_counts(){
 	for(int i = 0; i < tree_count; ++i)
 		tree_fade_counts(i);
 }
-template<int max_stack_size=100>
+template<int max_stack_size=MAX_DEPTH>
 int tree_fade_counts(int const tree_id){
 	TreeBase const& base = tree_bases()[tree_id];
 	int const root_id = base.root;
@@ -2285,7 +2287,7 @@ double average_tree_size(void) const{
  * Compute the depth of a tree. The template max_stack_size is the maximum depth expected.
  * @param tree_id The id of the tree which is an index between 0 and tree_count.
  */
-template<int max_stack_size=100>
+template<int max_stack_size=MAX_DEPTH>
 int tree_depth(int const tree_id, int* tree_node_count) const{
 	int root_id;
 	TreeBase const& base = tree_bases()[tree_id];
@@ -2299,7 +2301,7 @@ int tree_depth(int const tree_id, int* tree_node_count) const{
 
 	return node_depth<max_stack_size>(root_id, tree_node_count);
 }
-template<int max_stack_size=100>
+template<int max_stack_size=MAX_DEPTH>
 int node_depth(int const start_id, int* tree_node_count) const{
 	//Initialize an array to keep track of where we have to go at each tree level.
 	//The max depth expected is MAX_DEPTH.
@@ -2360,7 +2362,7 @@ int node_depth(int const start_id, int* tree_node_count) const{
  * @param tree_id The id of the tree which is an index between 0 and tree_count.
  * @return Returns false if the maximum depth is exceed or if the tree contains more than *node_count*, which is an error in the structure.
  */
-template<int max_stack_size=100>
+template<int max_stack_size=MAX_DEPTH>
 bool tree_reset(int const tree_id) {
 	TreeBase const& base = tree_bases()[tree_id];
 	int const root_id = base.root;
@@ -2376,7 +2378,7 @@ bool tree_reset(int const tree_id) {
 
 	return ret;
 }
-template<int max_stack_size=100>
+template<int max_stack_size=MAX_DEPTH>
 bool node_reset(int const start_id) {
 	int const root_id = start_id;
 	//Initialize an array to keep track of where we have to go at each tree level.
@@ -2535,7 +2537,7 @@ bool tree_delete(int const tree_id){
 
 	return true;
 }
-template<int max_stack_size=100>
+template<int max_stack_size=MAX_DEPTH>
 bool tree_chop(int const tree_id, int const cutting_depth = -1) { //Chop every depth below *cutting_depth*
 	TreeBase const& base = tree_bases()[tree_id];
 	int const root_id = base.root;
@@ -2613,7 +2615,7 @@ void tree_split(){
 		split_leaf(id, i, false);
 	}
 }
-template<int max_stack_size=100>
+template<int max_stack_size=MAX_DEPTH>
 int tree_split(int const tree_id){
 	TreeBase const& base = tree_bases()[tree_id];
 	int const root_id = base.root;
@@ -2712,7 +2714,7 @@ void child_of(int const node_id){
 	}
 }
 int tree_dd(int const tree_id) const{
-	int const max_stack_size=100;
+	int const max_stack_size=MAX_DEPTH;
 	int root_id;
 	TreeBase const& base = tree_bases()[tree_id];
 	root_id = base.root;
@@ -2772,7 +2774,7 @@ int tree_dd(int const tree_id) const{
 	return max_depth+1;
 }
 int tree_checker(int const tree_id) const{
-	int const max_stack_size=100;
+	int const max_stack_size=MAX_DEPTH;
 	int root_id;
 	TreeBase const& base = tree_bases()[tree_id];
 	root_id = base.root;
@@ -3204,7 +3206,7 @@ void node_csv(int const tree_id, int const node_id, int const depth, int const l
 	}
 	cout << endl;
 }
-template<int max_stack_size=100>
+template<int max_stack_size=MAX_DEPTH>
 void tree_printy(int const tree_id, int const start_id) const{
 	//Initialize an array to keep track of where we have to go at each tree level.
 	//The max depth expected is MAX_DEPTH.
-- 
2.43.0


From 2175310745713a9472907a3514d67df7b83557d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:38 +0000
Subject: [PATCH 60/64] fix: the distances between a point and a box of the
 Mondrian forests are not kept in the type of the features

---
 src/mondrian.hpp         |  4 ++--
 src/mondrian_coarse.hpp  | 20 ++++++++++----------
 src/mondrian_unbound.hpp |  4 ++--
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index fbe34e3..45253ea 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -129,13 +129,13 @@ class MondrianForest{
 	 */
 	void extend_block(int const node_id, int const tree_id, feature_type const* features, int const label){
 		//e_lower and e_upper are used to compute probabilities
-		feature_type e_lower[feature_count], e_upper[feature_count];
+		double e_lower[feature_count], e_upper[feature_count];
 		double probabilities[feature_count];
 		Node& node = nodes[node_id];
 		int const parent_id = node.parent;
 		double const parent_tau = node.parent >= 0 ? nodes[node.parent].tau : 0; //The tau value of the parent of the root is 0
 		//sum is used as a parameter to pick random numbers following exponential law
-		feature_type sum = 0;
+		double sum = 0;
 		//compute e_lower, e_upper and sum
 		for(int i = 0; i < feature_count; ++i){
 			e_lower[i] = node.bound_lower[i] - features[i] > 0 ? node.bound_lower[i] - features[i] : 0;
diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 1e3b2d0..764c07d 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -303,13 +303,13 @@ int available_node(void) const{
 //Original extend
 void extend_block0(int const node_id, int const tree_id, feature_type const* features, int const label){
 	//e_lower and e_upper are used to compute probabilities
-	feature_type e_lower[feature_count], e_upper[feature_count];
+	double e_lower[feature_count], e_upper[feature_count];
 	double probabilities[feature_count];
 	Node& node = nodes()[node_id];
 	int const parent_id = node.parent;
 	double const parent_tau = node.parent >= 0 ? nodes()[node.parent].tau : 0; //The tau value of the parent of the root is 0
 	//sum is used as a parameter to pick random numbers following exponential law
-	feature_type sum = 0;
+	double sum = 0;
 	//compute e_lower, e_upper and sum
 	for(int i = 0; i < feature_count; ++i){
 		e_lower[i] = node.bound_lower[i] - features[i] > 0 ? node.bound_lower[i] - features[i] : 0;
@@ -430,13 +430,13 @@ void extend_block0(int const node_id, int const tree_id, feature_type const* fea
 //Update if not split
 void extend_block2(int const node_id, int const tree_id, feature_type const* features, int const label){
 	//e_lower and e_upper are used to compute probabilities
-	feature_type e_lower[feature_count], e_upper[feature_count];
+	double e_lower[feature_count], e_upper[feature_count];
 	double probabilities[feature_count];
 	Node& node = nodes()[node_id];
 	int const parent_id = node.parent;
 	double const parent_tau = node.parent >= 0 ? nodes()[node.parent].tau : 0; //The tau value of the parent of the root is 0
 	//sum is used as a parameter to pick random numbers following exponential law
-	feature_type sum = 0;
+	double sum = 0;
 	//compute e_lower, e_upper and sum
 	for(int i = 0; i < feature_count; ++i){
 		e_lower[i] = node.bound_lower[i] - features[i] > 0 ? node.bound_lower[i] - features[i] : 0;
@@ -555,13 +555,13 @@ void extend_block2(int const node_id, int const tree_id, feature_type const* fea
 //Ghost (stop going down when branch off but no node)
 void extend_block1(int const node_id, int const tree_id, feature_type const* features, int const label){
 	//e_lower and e_upper are used to compute probabilities
-	feature_type e_lower[feature_count], e_upper[feature_count];
+	double e_lower[feature_count], e_upper[feature_count];
 	double probabilities[feature_count];
 	Node& node = nodes()[node_id];
 	int const parent_id = node.parent;
 	double const parent_tau = node.parent >= 0 ? nodes()[node.parent].tau : 0; //The tau value of the parent of the root is 0
 	//sum is used as a parameter to pick random numbers following exponential law
-	feature_type sum = 0;
+	double sum = 0;
 	//compute e_lower, e_upper and sum
 	for(int i = 0; i < feature_count; ++i){
 		e_lower[i] = node.bound_lower[i] - features[i] > 0 ? node.bound_lower[i] - features[i] : 0;
@@ -684,13 +684,13 @@ void extend_block1(int const node_id, int const tree_id, feature_type const* fea
 //Increase counter but don't update box
 void extend_block3(int const node_id, int const tree_id, feature_type const* features, int const label){
 	//e_lower and e_upper are used to compute probabilities
-	feature_type e_lower[feature_count], e_upper[feature_count];
+	double e_lower[feature_count], e_upper[feature_count];
 	double probabilities[feature_count];
 	Node& node = nodes()[node_id];
 	int const parent_id = node.parent;
 	double const parent_tau = node.parent >= 0 ? nodes()[node.parent].tau : 0; //The tau value of the parent of the root is 0
 	//sum is used as a parameter to pick random numbers following exponential law
-	feature_type sum = 0;
+	double sum = 0;
 	//compute e_lower, e_upper and sum
 	for(int i = 0; i < feature_count; ++i){
 		e_lower[i] = node.bound_lower[i] - features[i] > 0 ? node.bound_lower[i] - features[i] : 0;
@@ -810,13 +810,13 @@ void extend_block3(int const node_id, int const tree_id, feature_type const* fea
 //Count forced extend
 void extend_block4(int const node_id, int const tree_id, feature_type const* features, int const label, int const forced_extend_sum=0){
 	//e_lower and e_upper are used to compute probabilities
-	feature_type e_lower[feature_count], e_upper[feature_count];
+	double e_lower[feature_count], e_upper[feature_count];
 	double probabilities[feature_count];
 	Node& node = nodes()[node_id];
 	int const parent_id = node.parent;
 	double const parent_tau = node.parent >= 0 ? nodes()[node.parent].tau : 0; //The tau value of the parent of the root is 0
 	//sum is used as a parameter to pick random numbers following exponential law
-	feature_type sum = 0;
+	double sum = 0;
 	//compute e_lower, e_upper and sum
 	for(int i = 0; i < feature_count; ++i){
 		e_lower[i] = node.bound_lower[i] - features[i] > 0 ? node.bound_lower[i] - features[i] : 0;
diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index c74ab59..9dfbaad 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -244,12 +244,12 @@ class MondrianForestUnbound{
 	 */
 	void extend_block(MondrianNode* node, int const tree_id, feature_type const* features, int const label){
 		//e_lower and e_upper are used to compute probabilities
-		feature_type e_lower[feature_count], e_upper[feature_count];
+		double e_lower[feature_count], e_upper[feature_count];
 		double probabilities[feature_count];
 		MondrianNode* parent = node->parent;
 		double const parent_tau = parent != nullptr ? parent->tau : 0; //The tau value of the parent of the root is 0
 		//sum is used as a parameter to pick random numbers following exponential law
-		feature_type sum = 0;
+		double sum = 0;
 		//compute e_lower, e_upper and sum
 		for(int i = 0; i < feature_count; ++i){
 			e_lower[i] = node->get_lower_bound(i) - features[i] > 0 ? node->get_lower_bound(i) - features[i] : 0;
-- 
2.43.0


From 58894e37646a5537478b043f1bc034cb7b50dc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:41 +0000
Subject: [PATCH 61/64] fix: the sums of a micro cluster are not kept in the
 type of the features

---
 src/mc_nn.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/mc_nn.hpp b/src/mc_nn.hpp
index 06b7827..a1c94aa 100644
--- a/src/mc_nn.hpp
+++ b/src/mc_nn.hpp
@@ -16,8 +16,9 @@ class MCNN{
 
 	//Define an internal definition of a micro-cluster
 	struct cluster{
-		feature_type features_square_sum[feature_count];//CF2X
-		feature_type features_sum[feature_count];//CF1X
+		//NOTE: the sums would not fit in the type of the features when it is an integer
+		double features_square_sum[feature_count];//CF2X
+		double features_sum[feature_count];//CF1X
 		double timestamp_square_sum; //CF2T
 		double timestamp_sum; //CF1T
 		unsigned int data_count;
@@ -50,7 +51,7 @@ class MCNN{
 			data_count += 1;
 			for(int i = 0; i < feature_count; ++i){
 				features_sum[i] += features[i];
-				features_square_sum[i] += features[i]*features[i];
+				features_square_sum[i] += static_cast<double>(features[i]) * features[i];
 			}
 		}
 		/**
@@ -80,7 +81,7 @@ class MCNN{
 			this->label = label;
 			for(int i = 0; i < feature_count; ++i){
 				features_sum[i] = features[i];
-				features_square_sum[i] = features[i]*features[i];
+				features_square_sum[i] = static_cast<double>(features[i]) * features[i];
 			}
 		}
 		/**
@@ -201,7 +202,7 @@ class MCNN{
 	double euclidean_distance(feature_type const* e1, feature_type const* e2) const{
 		double squared_sum = 0;
 		for(int i = 0; i < feature_count; ++i)
-			squared_sum += (e1[i] - e2[i]) * (e1[i] - e2[i]);
+			squared_sum += (static_cast<double>(e1[i]) - e2[i]) * (static_cast<double>(e1[i]) - e2[i]);
 		//NOTE: Not really a distance :D
 		return squared_sum;
 	}
-- 
2.43.0


From b82757b35cf76999d55b552912c0dcc89149b0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:46 +0000
Subject: [PATCH 62/64] fix: round does not add 0.5 before the fraction is
 known

---
 src/utils.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/utils.hpp b/src/utils.hpp
index 10a2edd..8046dd6 100644
--- a/src/utils.hpp
+++ b/src/utils.hpp
@@ -99,8 +99,11 @@ class Utils{
 	}
 	template<class T>
 	inline static int round(T const v){
-		if(v < 0)
-			return static_cast<int>(v-0.5);
-		return static_cast<int>(v+0.5);
+		//NOTE: adding 0.5 to *v* could round the sum up to the next integer
+		int const truncated = static_cast<int>(v);
+		double const rest = static_cast<double>(v) - truncated;
+		if(rest <= -0.5)
+			return truncated - 1;
+		return rest >= 0.5 ? truncated + 1 : truncated;
 	}
 };
-- 
2.43.0


From e6a7d1c6efd5bc9b81e908b97b1e82a6c15947a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:27 +0000
Subject: [PATCH 63/64] fix: a chained reservoir counts more than 2^32 elements

---
 src/chained_reservoir.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/chained_reservoir.hpp b/src/chained_reservoir.hpp
index 02f6088..1bcd0ee 100644
--- a/src/chained_reservoir.hpp
+++ b/src/chained_reservoir.hpp
@@ -29,9 +29,9 @@ class ChainedReservoirSampling{
 	};
 	node sample[sample_size];
 	//`next` is not inside the node structure because once next is used for a node, it is not used again
-	unsigned int next[sample_size];
-	//The number of element seen so for by the reservoir.
-	unsigned int counter = 0;
+	unsigned long long next[sample_size];
+	//The number of element seen so for by the reservoir (with 32 bits, it would start again from 0 in a long stream).
+	unsigned long long counter = 0;
 
 	/**
 	 * Pick a random index between 0 and sample_size - 1, all with the same probability.
-- 
2.43.0


From d1a71ececd0f3eaeb22744da9ad12b8ca0a1ad34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:27 +0000
Subject: [PATCH 64/64] fix: a reservoir counts more than 2^32 elements

---
 src/reservoir_sampling.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/reservoir_sampling.hpp b/src/reservoir_sampling.hpp
index b7c0133..cb13f39 100644
--- a/src/reservoir_sampling.hpp
+++ b/src/reservoir_sampling.hpp
@@ -36,8 +36,8 @@ class Reservoir{
  */
 template<class element_type, unsigned int sample_size, class func>
 class ReservoirSampling : public Reservoir<element_type, sample_size>{
-	//Count the number of element seen so far
-	unsigned int counter = 0;
+	//Count the number of element seen so far (with 32 bits, it would start again from 0 in a long stream)
+	unsigned long long counter = 0;
 
 	public:
 	/**
@@ -78,7 +78,7 @@ class ReservoirSampling : public Reservoir<element_type, sample_size>{
 	/**
 	 * Return the number of item already in the Reservoir.
 	 */
-	inline unsigned int count(void) const{
+	inline unsigned long long count(void) const{
 		return counter;
 	}
 };
-- 
2.43.0

