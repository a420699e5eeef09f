From 6d7ae9a445790a2fd8b72441a5f534dd59a48f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:01 +0000
Subject: [PATCH 01/47] fix: strided binary tests of smatrix walked past the
 end of the vector

_isBinaryVecWLd()/_isBinaryStrictVecWLd() advance by ld elements per item but
computed the end pointer as ptr+ne, so test_biases_holey() of a batch-in-row
matrix read out of bounds (or never met the end pointer).
---
 nntl/interface/math/smatrix.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nntl/interface/math/smatrix.h b/nntl/interface/math/smatrix.h
index 4d7ef4a..6cc6706 100644
--- a/nntl/interface/math/smatrix.h
+++ b/nntl/interface/math/smatrix.h
@@ -169,7 +169,7 @@ namespace math {
 			//#todo for C++17 must change to ::std::launder(reinterpret_cast< ... 
 			auto ptr = reinterpret_cast<const similar_FWI_t*__restrict>(pData);
 
-			const auto pE = ptr + ne;
+			const auto pE = ptr + ne*ld;
 			similar_FWI_t cond = similar_FWI_t(1);
 			while (ptr != pE) {
 				const auto v = *ptr;
@@ -198,7 +198,7 @@ namespace math {
 			//#todo for C++17 must change to ::std::launder(reinterpret_cast< ... 
 			auto ptr = reinterpret_cast<const similar_FWI_t*__restrict>(pData);
 
-			const auto pE = ptr + ne;
+			const auto pE = ptr + ne*ld;
 			similar_FWI_t cond = similar_FWI_t(1);
 			while (ptr != pE) {
 				const auto v = *ptr;
@@ -217,7 +217,7 @@ namespace math {
 			const auto _one = T(1);
 			const auto _zero = T(0);
 
-			const auto pE = ptr + ne;
+			const auto pE = ptr + ne*ld;
 			T cond = T(1);
 			while (ptr != pE) {
 				const auto v = *ptr;
-- 
2.43.0


From d859cb15c8b871d2805cadc2c4a39fc9b7f75faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:41 +0000
Subject: [PATCH 02/47] fix: multithreaded mrwIdxsOfMax returned an arbitrary
 one of equal maximums instead of the first

---
 nntl/interface/math/smath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/interface/math/smath.h b/nntl/interface/math/smath.h
index b051392..dee7736 100644
--- a/nntl/interface/math/smath.h
+++ b/nntl/interface/math/smath.h
@@ -1367,7 +1367,7 @@ namespace math {
 					for (vec_len_t r = 0; r < rm; ++r) {
 						const auto pM = pMaxStor + r;
 						const auto v = p[r];
-						if (v > *pM) {
+						if (v > *pM || (v == *pM && pIdxs[r] < pIdxsStor[r])) {//the caller's thread may own not the first columns
 							*pM = v;
 							pIdxsStor[r] = pIdxs[r];
 						}
-- 
2.43.0


From 0c4f7a2bfc2684393f695562bfcd649f09eacdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:47 +0000
Subject: [PATCH 03/47] fix: gw_init initialised ILR before the common data it
 uses, so enabling ILR dereferenced a null pointer

---
 nntl/grad_works/grad_works.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nntl/grad_works/grad_works.h b/nntl/grad_works/grad_works.h
index fd24878..77d3735 100644
--- a/nntl/grad_works/grad_works.h
+++ b/nntl/grad_works/grad_works.h
@@ -300,10 +300,10 @@ namespace nntl {
 				if (!m_optMtxB.resize(weightsSize))return false;
 			}
 
-			if (!ILR_init(weightsSize))return false;
-
 			set_common_data(cd);
 
+			if (!ILR_init(weightsSize))return false;
+
 			//we would need twice weightsNumel to make LRDropout for NesterovMomentum if necessary
 			//Currently also see implementation of max_norm2 enforcer mCheck_normalize_rows()
 			get_iMath().preinit(
-- 
2.43.0


From b5c3abd4d311fb31796deddbadce49f77a4b6a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:30 +0000
Subject: [PATCH 04/47] fix: Workers destructor could miss a worker about to
 sleep and then wait for it forever

---
 nntl/interface/threads/workers.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nntl/interface/threads/workers.h b/nntl/interface/threads/workers.h
index 177f22c..678f184 100644
--- a/nntl/interface/threads/workers.h
+++ b/nntl/interface/threads/workers.h
@@ -92,7 +92,9 @@ namespace threads {
 
 	public:
 		~Workers()noexcept {
+			m_mutex.lock();//or a worker might miss the flag between checking it and falling asleep
 			m_bStop = true;
+			m_mutex.unlock();
 
 			//m_mutex.lock();
 			m_waitingOrders.notify_all();
-- 
2.43.0


From f1f0e1985f9c5389f52b7fecbc48e689c607d4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:12 +0000
Subject: [PATCH 05/47] fix: normal_vector used the element count instead of
 the requested standard deviation

---
 nntl/interface/_i_rng.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/interface/_i_rng.h b/nntl/interface/_i_rng.h
index e453a25..ca87e6d 100644
--- a/nntl/interface/_i_rng.h
+++ b/nntl/interface/_i_rng.h
@@ -235,7 +235,7 @@ namespace rng {
 		//////////////////////////////////////////////////////////////////////////
 		//////////////////////////////////////////////////////////////////////////
 		void normal_vector(real_t*const ptr, const numel_cnt_t n, const real_t m = real_t(0.), const real_t st = real_t(1.))noexcept {
-			::std::normal_distribution<real_t> distr(m,n);
+			::std::normal_distribution<real_t> distr(m, st);
 			for (numel_cnt_t i = 0; i < n; ++i) {
 				ptr[i] = distr(*this);
 			}
-- 
2.43.0


From bc2debfb9277b9a096792a120c93486d8aec6078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:12 +0000
Subject: [PATCH 06/47] fix: DataBuffer handed a completely claimed but not yet
 delivered buffer out a second time

---
 nntl/utils/data_buffer.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nntl/utils/data_buffer.h b/nntl/utils/data_buffer.h
index 34e19e9..6b286bf 100644
--- a/nntl/utils/data_buffer.h
+++ b/nntl/utils/data_buffer.h
@@ -186,6 +186,7 @@ namespace utils {
 		size_t m_afterLastValidIdx{ 0 }; //last initialized element+1, so for a full container it is either 
 										 // equals to m_curIdx if m_curIdx!=0, or equals to m_total. Modifiable only by a one of bgthreads
 		size_t m_afterLastClaimedIdx{ 0 };//last claimed by bgthread element+1. zero means uninitialized
+		size_t m_claimedCnt{ 0 };//number of elements claimed by bgthreads but not yet delivered by _as_done()
 		bool m_bEmpty{ true };
 
 	public:
@@ -294,7 +295,7 @@ namespace utils {
 			NNTL_ASSERT(bStateOK());
 
 			size_t r;
-			if (!m_bEmpty && ((m_afterLastClaimedIdx && m_afterLastClaimedIdx == m_curIdx) || (!m_curIdx && m_afterLastClaimedIdx == m_total))) {
+			if ((!m_bEmpty || m_claimedCnt) && ((m_afterLastClaimedIdx && m_afterLastClaimedIdx == m_curIdx) || (!m_curIdx && m_afterLastClaimedIdx == m_total))) {
 				//the buffer is either already full or will been generated to its full condition soon. Nothing should be done.
 				r = 0;
 			} else {
@@ -343,6 +344,7 @@ namespace utils {
 				}
 			}
 			NNTL_ASSERT(r <= n);
+			m_claimedCnt += r;
 			NNTL_ASSERT(m_afterLastClaimedIdx > 0);
 			NNTL_ASSERT(bStateOK());
 			//m_bufMutex.unlock();
@@ -386,6 +388,8 @@ namespace utils {
 					_copy2buf<bValidateBuffer>(0, ptr + bs1, bs2);
 				}
 			}
+			NNTL_ASSERT(m_claimedCnt >= n);
+			m_claimedCnt -= n;
 			m_bEmpty = false;
 			NNTL_ASSERT(m_afterLastValidIdx && m_afterLastValidIdx <= m_total);
 			NNTL_ASSERT(bStateOK());
-- 
2.43.0


From 2b8a50eb7779a4e4261a5511149b7fdd60956d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:19 +0000
Subject: [PATCH 07/47] fix: walk_over_set skipped the last sample of a set
 when the last batch holds exactly one sample

---
 nntl/train_data/_train_data_simple.h | 2 +-
 nntl/train_data/transf_train_data.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nntl/train_data/_train_data_simple.h b/nntl/train_data/_train_data_simple.h
index 094bad4..ddc6c16 100644
--- a/nntl/train_data/_train_data_simple.h
+++ b/nntl/train_data/_train_data_simple.h
@@ -366,7 +366,7 @@ namespace nntl {
 				}
 
 				const auto _dr = ::std::div(dsNumel, static_cast<numel_cnt_t>(batchSize));
-				const auto numBatches = _dr.quot + (_dr.rem > 1);
+				const auto numBatches = _dr.quot + (_dr.rem > 0);
 				NNTL_ASSERT(numBatches > 0);
 				return numBatches;
 			}
diff --git a/nntl/train_data/transf_train_data.h b/nntl/train_data/transf_train_data.h
index 51d2262..0848e75 100644
--- a/nntl/train_data/transf_train_data.h
+++ b/nntl/train_data/transf_train_data.h
@@ -442,7 +442,7 @@ namespace nntl {
 				m_TFunct.walk(m_tdStor, dataSetId, cd, m_curBatchSize, excludeDataFlag, &m_pCurBatchX, &m_pCurBatchY);
 
 				const auto _dr = ::std::div(dsNumel, static_cast<numel_cnt_t>(batchSize));
-				const auto numBatches = _dr.quot + (_dr.rem > 1);
+				const auto numBatches = _dr.quot + (_dr.rem > 0);
 				NNTL_ASSERT(numBatches > 0);
 				return numBatches;
 			}
-- 
2.43.0


From 9dbf4f931cce14ed9f49c7ed7cd5ba2dd12703a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:19 +0000
Subject: [PATCH 08/47] fix: inmem train data initialized for full-batch
 training claimed to be initialized for smaller batches

---
 nntl/train_data/_train_data_simple.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nntl/train_data/_train_data_simple.h b/nntl/train_data/_train_data_simple.h
index ddc6c16..2f50f63 100644
--- a/nntl/train_data/_train_data_simple.h
+++ b/nntl/train_data/_train_data_simple.h
@@ -166,9 +166,10 @@ namespace nntl {
 				const auto tbs = trainBs ? trainBs : m_maxTrainBatchSize;
 				//fullbatch mode must support only exactly specified batch sizes				
 				if (0 == m_maxTrainBatchSize || tbs > m_maxTrainBatchSize 
-					|| (tbs < m_maxFPropSize && m_batch_x.empty()) || tbs > fpropBs) return false;
+					|| (tbs < m_maxFPropSize && m_batch_x.empty()) || tbs > fpropBs
+					|| (tbs < m_maxTrainBatchSize && !m_bMiniBatchTraining)) return false;
 				trainBs = tbs;
-				bMiniBatch = !m_batch_x.empty();
+				bMiniBatch = m_bMiniBatchTraining;
 				return true;
 			}
 
-- 
2.43.0


From 1a499808e24f85e3269f5a13281c978be39a6b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:06 +0000
Subject: [PATCH 09/47] fix: nnet loss was a sum of per-batch mean losses, so
 the reported loss depended on maxFpropSize

---
 nntl/nnet.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index 9383a1b..5d9bd99 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -276,6 +276,7 @@ namespace nntl {
 			const auto& cd = get_const_common_data();
 			const auto& activations = *m_Layers.output_layer().get_activations_storage();//we won't touch it until it's valid
 			real_t lossVal(0);
+			numel_cnt_t samplesCnt(0);
 
 			const numel_cnt_t batchesCnt = td.walk_over_set(dataSetId, cd);
 			NNTL_ASSERT(batchesCnt > 0);
@@ -284,13 +285,17 @@ namespace nntl {
 
 			for (numel_cnt_t bi = 0; bi < batchesCnt; ++bi) {
 				td.next_subset(bi, cd);
-				lossVal += _calcLoss4batch(td.batchX(), td.batchY());
+				lossVal += _calcLoss4batch_nonnormalized(td.batchX(), td.batchY());
+				samplesCnt += td.batchY().batch_size();
 
 				NNTL_ASSERT(m_Layers.output_layer().is_activations_valid());
 				NNTL_ASSERT(&activations == m_Layers.output_layer().get_activations_storage());//sanity check
 				obs.report_results(bi, activations, td.batchY(), cd);
 			}
 
+			//the loss must be averaged over the whole dataset, whatever batches it was split to
+			lossVal /= static_cast<real_t>(samplesCnt);
+
 			//after calculating loss based on batch data, we must add a loss based on layers properties/parameters
 			if (m_bCalcFullLossValue) lossVal += m_Layers.calcLossAddendum();
 
-- 
2.43.0


From ff295a4ec8f3248af3bb51e2a35e12a500f331b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:52 +0000
Subject: [PATCH 10/47] fix: repeated train() with a smaller batch used the
 batch size of the previous initialization

---
 nntl/nnet.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index 5d9bd99..fcc03ce 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -584,7 +584,8 @@ namespace nntl {
 			
 			// #note should depend on bPrioritizeThreads value to relax priorities for callbacks?
 			_report_training_progress(-1, td, ::std::chrono::nanoseconds(0), opts.observer());
-			_set_mode_and_batch_size(0);//prepare for training (sets to maxBatchSize, that's already stored in common_data structure)
+			//prepare for training. The nnet may have been initialized earlier for a bigger batch, so always set the maxBatchSize
+			_set_training_mode_and_batch_size(maxBatchSize);
 
 #if NNTL_DEBUG_CHECK_DENORMALS_ON_EACH_EPOCH
 			STDCOUTL("Denormals check... " << (get_iMath().ithreads().denormalsOnInAnyThread() ? "FAILED!!!" : "passed.") 
@@ -660,8 +661,8 @@ namespace nntl {
 					// #note should depend on bPrioritizeThreads value to relax priorities for callbacks?
 					if (!onEpochEndCB(/**this, opts,*/ epochIdx)) break;
 
-					//should always call _set_mode_and_batch_size(0) because onEpochEndCB could change this object state
-					_set_mode_and_batch_size(0);
+					//should always set the training mode here because onEpochEndCB could change this object state
+					_set_training_mode_and_batch_size(maxBatchSize);
 				}
 			}
 
-- 
2.43.0


From c71448067b4fe024cceae1742805ed5d03c086f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:15 +0000
Subject: [PATCH 11/47] fix: is_initialized4train() of train data classes
 changed the forward size argument even when it returned false

---
 nntl/train_data/_train_data_simple.h | 6 ++++--
 nntl/train_data/transf_train_data.h  | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/nntl/train_data/_train_data_simple.h b/nntl/train_data/_train_data_simple.h
index 2f50f63..151c973 100644
--- a/nntl/train_data/_train_data_simple.h
+++ b/nntl/train_data/_train_data_simple.h
@@ -162,12 +162,14 @@ namespace nntl {
 			}
 
 			bool is_initialized4train(vec_len_t& fpropBs, vec_len_t& trainBs, bool& bMiniBatch)const noexcept {
-				if (!get_self().is_initialized4inference(fpropBs)) return false;
+				vec_len_t fbs = fpropBs;//args must be left untouched on failure
+				if (!get_self().is_initialized4inference(fbs)) return false;
 				const auto tbs = trainBs ? trainBs : m_maxTrainBatchSize;
 				//fullbatch mode must support only exactly specified batch sizes				
 				if (0 == m_maxTrainBatchSize || tbs > m_maxTrainBatchSize 
-					|| (tbs < m_maxFPropSize && m_batch_x.empty()) || tbs > fpropBs
+					|| (tbs < m_maxFPropSize && m_batch_x.empty()) || tbs > fbs
 					|| (tbs < m_maxTrainBatchSize && !m_bMiniBatchTraining)) return false;
+				fpropBs = fbs;
 				trainBs = tbs;
 				bMiniBatch = m_bMiniBatchTraining;
 				return true;
diff --git a/nntl/train_data/transf_train_data.h b/nntl/train_data/transf_train_data.h
index 0848e75..24c81f0 100644
--- a/nntl/train_data/transf_train_data.h
+++ b/nntl/train_data/transf_train_data.h
@@ -280,12 +280,14 @@ namespace nntl {
 			}
 
 			bool is_initialized4train(vec_len_t& fpropBs, vec_len_t& trainBs, bool& bMiniBatch)const noexcept {
-				if (!get_self().is_initialized4inference(fpropBs)) return false;
+				vec_len_t fbs = fpropBs;//args must be left untouched on failure
+				if (!get_self().is_initialized4inference(fbs)) return false;
 				const auto tbs = trainBs ? trainBs : m_maxTrainBatchSize;
 				//fullbatch mode must support only exactly specified batch sizes
 				const auto dr = ::std::div(tbs, m_TFunct.samplesInBaseSample());
 				if (0 == m_maxTrainBatchSize || tbs > m_maxTrainBatchSize 
-					|| 0 != dr.rem || tbs > fpropBs) return false;
+					|| 0 != dr.rem || tbs > fbs) return false;
+				fpropBs = fbs;
 				trainBs = tbs;
 				bMiniBatch = dr.quot < get_self().base_trainset_samples_count();
 				return true;
-- 
2.43.0


From 190e5f50e4b93164aeecbbbfaec788470965c3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:41 +0000
Subject: [PATCH 12/47] fix: loss calculation walked over data in batches
 bigger than the nnet was initialized for

---
 nntl/nnet.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index fcc03ce..7386827 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -278,7 +278,11 @@ namespace nntl {
 			real_t lossVal(0);
 			numel_cnt_t samplesCnt(0);
 
-			const numel_cnt_t batchesCnt = td.walk_over_set(dataSetId, cd);
+			//td may have been initialized for bigger batches than this nnet can process
+			vec_len_t walkBatchSize = cd.input_max_fprop_batch_size();
+			if (!td.is_initialized4inference(walkBatchSize)) walkBatchSize = -1;//use the default (not bigger) td batch size
+
+			const numel_cnt_t batchesCnt = td.walk_over_set(dataSetId, cd, walkBatchSize);
 			NNTL_ASSERT(batchesCnt > 0);
 
 			obs.report_results_begin(dataSetId, batchesCnt);
-- 
2.43.0


From 0783cb455fc1372f017cede3efb12a09b23ce461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:10 +0000
Subject: [PATCH 13/47] fix: ConfusionMtx::MCC() overflowed integer arithmetic
 on counts of ordinary size

---
 nntl/utils/confusion_mtx.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nntl/utils/confusion_mtx.h b/nntl/utils/confusion_mtx.h
index 54f7dcc..fb43899 100644
--- a/nntl/utils/confusion_mtx.h
+++ b/nntl/utils/confusion_mtx.h
@@ -108,8 +108,10 @@ namespace nntl {
 			real_t Markedness()const noexcept { return PPV() + NPV() - real_t(1.); }
 			
 			real_t MCC()const noexcept {
-				const auto den = (TP() + FP())*(TP() + FN())*(TN() + FP())*(TN() + FN());
-				return den ? static_cast<real_t>(TP()*TN() - FP()*FN()) / ::std::sqrt(static_cast<real_t>(den))  : real_t(0.);
+				//products of counts doesn't fit into vec_len_t
+				const real_t tp = static_cast<real_t>(TP()), tn = static_cast<real_t>(TN()), fp = static_cast<real_t>(FP()), fn = static_cast<real_t>(FN());
+				const auto den = (tp + fp)*(tp + fn)*(tn + fp)*(tn + fn);
+				return den ? (tp*tn - fp*fn) / ::std::sqrt(den)  : real_t(0.);
 			}
 
 			real_t Jaccard()const noexcept {
-- 
2.43.0


From 57bc0fda78af00a8beea89373adfba3d89ec16e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:10 +0000
Subject: [PATCH 14/47] fix: whole-data normalization of run-time transformed
 data left an unapplied mean as an offset

---
 nntl/train_data/_td_norm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/train_data/_td_norm.h b/nntl/train_data/_td_norm.h
index 1747962..ff78fe9 100644
--- a/nntl/train_data/_td_norm.h
+++ b/nntl/train_data/_td_norm.h
@@ -155,7 +155,7 @@ namespace nntl {
 					if (bCentral) {
 						centralVal = (m_Setts.targetCentral - centralVal)*scaleVal;
 						get_self()._upd_ofs(centralVal);
-					}
+					} else centralVal = statsdata_t(0.);//must not leave unapplied value as an offset
 					
 					get_self()._do_normalize_whole(indstat_t(scaleVal, centralVal, bScale, bCentral));
 				}
-- 
2.43.0


From a99ea30626e9bbd36eec2cf4e7e09545e1766b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:57 +0000
Subject: [PATCH 15/47] fix: layer_settings::set_default() fell off its end
 without returning a value

---
 nntl/utils/layers_settings.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nntl/utils/layers_settings.h b/nntl/utils/layers_settings.h
index bc01183..700e506 100644
--- a/nntl/utils/layers_settings.h
+++ b/nntl/utils/layers_settings.h
@@ -80,6 +80,7 @@ namespace utils {
 			if (!m_keeper.empty())
 				m_keeper.pop_front();
 			m_keeper.push_front(::std::forward<ST>(def));
+			return *this;
 		}
 
 		const setts_t& get(const layer_index_t idx)const noexcept {
-- 
2.43.0


From 800416c26d293f0f192dc2963208eea4ed654d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:25 +0000
Subject: [PATCH 16/47] fix: binfile::read() left the error of an earlier read
 in get_last_error() after a success

---
 nntl/_supp/io/binfile.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/_supp/io/binfile.h b/nntl/_supp/io/binfile.h
index cb1ed54..33f4c41 100644
--- a/nntl/_supp/io/binfile.h
+++ b/nntl/_supp/io/binfile.h
@@ -205,7 +205,7 @@ namespace nntl_supp {
 			if (hdr.sSignature != hdr.dwSignature) return _set_last_error(ErrorCode::WrongHeaderSignature);
 			if (hdr.sLatestVersion != hdr.wVersionNum) return _set_last_error(ErrorCode::UnsupportedFormatVersion);
 
-			return _read_into(fp, dest, static_cast<int>(hdr.wFieldsCount), static_cast<int>(hdr.wSeqClassCount));
+			return _set_last_error(_read_into(fp, dest, static_cast<int>(hdr.wFieldsCount), static_cast<int>(hdr.wSeqClassCount)));
 		}
 
 	protected:
-- 
2.43.0


From 1805a9f9158f00ba959f29fdf53f8b808001b00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:25 +0000
Subject: [PATCH 17/47] fix: binfile leaked its conversion buffer when the data
 of a field was truncated

---
 nntl/_supp/io/binfile.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nntl/_supp/io/binfile.h b/nntl/_supp/io/binfile.h
index 33f4c41..e8744f5 100644
--- a/nntl/_supp/io/binfile.h
+++ b/nntl/_supp/io/binfile.h
@@ -393,8 +393,10 @@ namespace nntl_supp {
 
 #pragma warning(disable:28020)
 			//MSVC SAL goes "slightly" mad here
-			if (1 != fread_s(pReadTo, readSize, readSize, 1, fp))
+			if (1 != fread_s(pReadTo, readSize, readSize, 1, fp)) {
+				if (!bSameTypes) free(pReadTo);
 				return _set_last_error(ErrorCode::FailedToReadData);
+			}
 #pragma warning(default:28020)
 
 			if (!bSameTypes) {
-- 
2.43.0


From 34297692277838d010a8321484e7708df3348c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:25 +0000
Subject: [PATCH 18/47] fix: binfile accepted field sizes whose byte count
 overflows

---
 nntl/_supp/io/binfile.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/nntl/_supp/io/binfile.h b/nntl/_supp/io/binfile.h
index e8744f5..e20b6b3 100644
--- a/nntl/_supp/io/binfile.h
+++ b/nntl/_supp/io/binfile.h
@@ -356,7 +356,14 @@ namespace nntl_supp {
 			const auto fieldDataType = fe.bDataType;
 			const auto bSameTypes = bin_file::correct_data_type<T_>(fieldDataType);
 
-			if (fe.dwRows <= 0 || fe.dwCols <= 0) return _set_last_error(ErrorCode::InvalidDataSize);
+			//the sizes (with a possible bias) must fit vec_len_t, and the byte size of the data must fit numel_cnt_t
+			constexpr bin_file::DWORD maxDim = static_cast<bin_file::DWORD>(::std::numeric_limits<vec_len_t>::max()) - 1;
+			if (fe.dwRows <= 0 || fe.dwCols <= 0 || fe.dwRows > maxDim || fe.dwCols > maxDim
+				|| static_cast<numel_cnt_t>(fe.dwRows) + 1 > ::std::numeric_limits<numel_cnt_t>::max()
+					/ static_cast<numel_cnt_t>(sizeof(double)) / (static_cast<numel_cnt_t>(fe.dwCols) + 1))
+			{
+				return _set_last_error(ErrorCode::InvalidDataSize);
+			}
 
 			fe.bDataType = 0;
 			if (pTdFieldId) {
-- 
2.43.0


From 25ea1954b406d61b9cf949f868794e73a1d4a98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:25 +0000
Subject: [PATCH 19/47] fix: jsonreader reported invalid members as missing
 ones

---
 nntl/_supp/io/jsonreader.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nntl/_supp/io/jsonreader.h b/nntl/_supp/io/jsonreader.h
index 3ab4373..935a3dc 100644
--- a/nntl/_supp/io/jsonreader.h
+++ b/nntl/_supp/io/jsonreader.h
@@ -203,8 +203,7 @@ namespace nntl_supp {
 
 		template <typename MembersEnumId>
 		const ErrorCode _members2ErrorCode(const ErrorCode b, const MembersEnumId rm)noexcept {
-			NNTL_UNREF(b);
-			const ErrorCode e = static_cast<ErrorCode>((int)ErrorCode::NoTrainX + (int)rm);
+			const ErrorCode e = static_cast<ErrorCode>((int)b + (int)rm);
 			return _set_last_error(e);
 		}
 
-- 
2.43.0


From 6a49c2e8985de01f289546da3f750897dce5561f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:25 +0000
Subject: [PATCH 20/47] fix: jsonreader fetched JSON numbers that are not
 representable in integer matrices

---
 nntl/_supp/io/jsonreader.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/nntl/_supp/io/jsonreader.h b/nntl/_supp/io/jsonreader.h
index 935a3dc..c9081cc 100644
--- a/nntl/_supp/io/jsonreader.h
+++ b/nntl/_supp/io/jsonreader.h
@@ -246,7 +246,7 @@ namespace nntl_supp {
 				vec_len_t j = 0;
 				rapidjson::Document::ValueType::ConstValueIterator eiend = itr->End();
 				for (rapidjson::Document::ValueType::ConstValueIterator ei = itr->Begin(); ei != eiend; ++ei, ++j) {
-					if (!ei->IsNumber()) {
+					if (!_is_value_of<T_>(*ei)) {
 						dest.clear();
 						return _members2ErrorCode(ErrorCode::InvalidTrainX, memberId);
 					}
@@ -269,7 +269,7 @@ namespace nntl_supp {
 			vec_len_t i = 0;
 			rapidjson::Document::ValueType::ConstValueIterator itrend = vec.End();
 			for (rapidjson::Document::ValueType::ConstValueIterator itr = vec.Begin(); itr != itrend; ++itr, ++i) {
-				if (!itr->IsNumber()) {
+				if (!_is_value_of<T_>(*itr)) {
 					dest.clear();
 					return _members2ErrorCode(ErrorCode::InvalidTrainX, memberId);
 				}
@@ -281,6 +281,20 @@ namespace nntl_supp {
 			return ErrorCode::Success;
 		}
 		
+		//checks that the json value can be represented by the type of matrix elements
+		template <typename mvt>
+		static ::std::enable_if_t< ::std::is_floating_point<mvt>::value, bool> _is_value_of(const rapidjson::Document::ValueType& v)noexcept {
+			return v.IsNumber();
+		}
+		template <typename mvt>
+		static ::std::enable_if_t< ::std::is_integral<mvt>::value && ::std::is_signed<mvt>::value, bool> _is_value_of(const rapidjson::Document::ValueType& v)noexcept {
+			return v.IsInt64() && v.GetInt64() >= ::std::numeric_limits<mvt>::lowest() && v.GetInt64() <= ::std::numeric_limits<mvt>::max();
+		}
+		template <typename mvt>
+		static ::std::enable_if_t< ::std::is_integral<mvt>::value && ::std::is_unsigned<mvt>::value, bool> _is_value_of(const rapidjson::Document::ValueType& v)noexcept {
+			return v.IsUint64() && v.GetUint64() <= ::std::numeric_limits<mvt>::max();
+		}
+
 		template <typename mvt>
 		typename ::std::enable_if_t< ::std::is_floating_point<mvt>::value, mvt > _extract_value(rapidjson::Document::ValueType::ConstValueIterator & itr)const noexcept {
 			return static_cast<mvt>(itr->GetDouble());
-- 
2.43.0


From eca6ca83595033accb9b394610a6e130005abbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:11 +0000
Subject: [PATCH 21/47] fix: LPT loaded saved activations over the buffers
 bound to its inner layer

---
 nntl/layer/pack_tile.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nntl/layer/pack_tile.h b/nntl/layer/pack_tile.h
index 30aa4fc..bfe87c9 100644
--- a/nntl/layer/pack_tile.h
+++ b/nntl/layer/pack_tile.h
@@ -436,8 +436,12 @@ namespace nntl {
 		template<class Archive> void serialize(Archive & ar, const unsigned int version) {
 			NNTL_UNREF(version);
 
-			if (utils::binary_option<true>(ar, serialization::serialize_activations)) ar & NNTL_SERIALIZATION_NVP(m_activations);
-			if (utils::binary_option<true>(ar, serialization::serialize_data_x)) ar & NNTL_SERIALIZATION_NVP(m_innerLowerLayerActivations);
+			//activations are temporary data bound to the current batch size and storage. They may be saved, but loading them here would
+			//break both matrices (their storage and the biases emulation flag)
+			if (Archive::is_saving::value) {
+				if (utils::binary_option<true>(ar, serialization::serialize_activations)) ar & NNTL_SERIALIZATION_NVP(m_activations);
+				if (utils::binary_option<true>(ar, serialization::serialize_data_x)) ar & NNTL_SERIALIZATION_NVP(m_innerLowerLayerActivations);
+			}
 			
 			ar & NNTL_SERIALIZATION_NVP(m_tiles_count);
 
-- 
2.43.0


From b44cf1c001da1118c9c62daaa5e5676bd5785052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:11 +0000
Subject: [PATCH 22/47] fix: dropout loaded its mask and activations buffers,
 changing their allocated sizes

---
 nntl/dropout/dropout.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nntl/dropout/dropout.h b/nntl/dropout/dropout.h
index 4f5b758..6222c39 100644
--- a/nntl/dropout/dropout.h
+++ b/nntl/dropout/dropout.h
@@ -70,7 +70,9 @@ namespace nntl {
 					ar & NNTL_SERIALIZATION_NVP(m_dropoutPercentActive);
 				}
 
-				if (bDropout() && utils::binary_option<true>(ar, serialization::serialize_dropout_mask)) {
+				//the mask and the activations are temporary data bound to the current batch size, so they must never be loaded (that
+				//would change the sizes, the matrices were allocated for by _dropout_init())
+				if (Archive::is_saving::value && bDropout() && utils::binary_option<true>(ar, serialization::serialize_dropout_mask)) {
 					ar & NNTL_SERIALIZATION_NVP(m_dropoutMask);
 					ar & NNTL_SERIALIZATION_NVP(m_origActivations);
 				}
-- 
2.43.0


From adcbe2e69e49b11e806cca5eecbd1fcb145d4f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:11 +0000
Subject: [PATCH 23/47] fix: alpha dropout restored its affine coefficients
 depending on the destination's state

---
 nntl/dropout/alpha_dropout.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nntl/dropout/alpha_dropout.h b/nntl/dropout/alpha_dropout.h
index 2b66d8c..3e11478 100644
--- a/nntl/dropout/alpha_dropout.h
+++ b/nntl/dropout/alpha_dropout.h
@@ -79,7 +79,8 @@ namespace nntl {
 
 		template<class Archive>
 		void _dropout_serialize(Archive & ar, const unsigned int version) noexcept {
-			if (bDropout()) {
+			//when loading, m_a and m_b (as well as m_mbDropVal) are derived from m_dropoutPercentActive, that is not yet known here
+			if (Archive::is_saving::value && bDropout()) {
 				if (utils::binary_option<true>(ar, serialization::serialize_training_parameters)) {
 					ar & NNTL_SERIALIZATION_NVP(m_a);
 					ar & NNTL_SERIALIZATION_NVP(m_b);
@@ -87,6 +88,8 @@ namespace nntl {
 			}
 
 			_base_class_t::_dropout_serialize(ar, version);
+
+			if (Archive::is_loading::value) dropoutPercentActive(m_dropoutPercentActive);
 		}
 
 		template<typename CommonDataT>
-- 
2.43.0


From 154c6db2b77cde78b0e69ff40d6045c574f45df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:11 +0000
Subject: [PATCH 24/47] fix: identity layers loaded activations into storage
 they do not own

---
 nntl/layer/identity.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nntl/layer/identity.h b/nntl/layer/identity.h
index c51f94b..8224dbb 100644
--- a/nntl/layer/identity.h
+++ b/nntl/layer/identity.h
@@ -129,7 +129,8 @@ namespace nntl {
 		//Serialization support
 		friend class ::boost::serialization::access;
 		template<class Archive> void serialize(Archive & ar, const unsigned int ) {
-			if (utils::binary_option<true>(ar, serialization::serialize_activations)) ar & NNTL_SERIALIZATION_NVP(m_activations);
+			//m_activations is bound to an external storage, so it can only be saved
+			if (Archive::is_saving::value && utils::binary_option<true>(ar, serialization::serialize_activations)) ar & NNTL_SERIALIZATION_NVP(m_activations);
 		}
 	};
 
-- 
2.43.0


From 5aba01800a22b1b2e903d021f852ecba5febe261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:11 +0000
Subject: [PATCH 25/47] fix: signed integer matrices were read as unsigned from
 mat files

---
 nntl/utils/matlab.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nntl/utils/matlab.h b/nntl/utils/matlab.h
index ac508da..507f458 100644
--- a/nntl/utils/matlab.h
+++ b/nntl/utils/matlab.h
@@ -92,14 +92,20 @@ namespace matlab {
 				d.fill_from_array_no_bias(static_cast<const float*>(pSrc));
 				break;
 			case mxINT64_CLASS:
+				d.fill_from_array_no_bias(static_cast<const ::std::int64_t*>(pSrc));
+				break;
 			case mxUINT64_CLASS:
 				d.fill_from_array_no_bias(static_cast<const ::std::uint64_t*>(pSrc));
 				break;
 			case mxINT32_CLASS:
+				d.fill_from_array_no_bias(static_cast<const ::std::int32_t*>(pSrc));
+				break;
 			case mxUINT32_CLASS:
 				d.fill_from_array_no_bias(static_cast<const ::std::uint32_t*>(pSrc));
 				break;
 			case mxINT8_CLASS:
+				d.fill_from_array_no_bias(static_cast<const ::std::int8_t*>(pSrc));
+				break;
 			case mxUINT8_CLASS:
 				d.fill_from_array_no_bias(static_cast<const ::std::uint8_t*>(pSrc));
 				break;
-- 
2.43.0


From f25e5ffd012d30210d17328b357b8e4862b6c596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:11 +0000
Subject: [PATCH 26/47] fix: updating a nested struct in omatfileEx destroyed
 the struct being saved

---
 nntl/_supp/io/matfile.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nntl/_supp/io/matfile.h b/nntl/_supp/io/matfile.h
index aa9c73b..9fe6a85 100644
--- a/nntl/_supp/io/matfile.h
+++ b/nntl/_supp/io/matfile.h
@@ -195,7 +195,8 @@ namespace nntl_supp {
 				} else {
 					//check whether the old field contains value and free it if needed
 					const auto oldVal = mxGetFieldByNumber(pStruct, 0, fieldNum);
-					if (oldVal) mxDestroyArray(oldVal);
+					//(a nested struct opened for updating is already the value of the field)
+					if (oldVal && oldVal != pA) mxDestroyArray(oldVal);
 				}
 				if (ErrorCode::Success == ec) {
 					mxSetFieldByNumber(pStruct, 0, fieldNum, pA);
-- 
2.43.0


From 06bcab7622a473258bead29ed0c25fa243af1dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:32 +0000
Subject: [PATCH 27/47] fix: gradcheck crashed when the whole data set makes
 one batch and the online batch is smaller

---
 nntl/nnet.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index 7386827..a4520a7 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -793,7 +793,10 @@ namespace nntl {
 
 			bool performCheck(const vec_len_t batchSize, const realmtx_t& data_x, const realmtx_t& data_y)noexcept {
 				const vec_len_t biggestBatch = ::std::max(batchSize, m_ngcSetts.onlineBatchSize);
-				m_data.init(biggestBatch == data_x.batch_size() ? 0 : biggestBatch, data_x, &data_y);
+				const vec_len_t smallestBatch = ::std::min(batchSize, m_ngcSetts.onlineBatchSize);
+				//m_data needs the biggest batch size that's less than a full batch (or 0, if there's no such batch)
+				m_data.init(biggestBatch < data_x.batch_size() ? biggestBatch
+					: (smallestBatch < data_x.batch_size() ? smallestBatch : 0), data_x, &data_y);
 				
 				bool bRet = false;
 				NNTL_ASSERT(m_ngcSetts.onlineBatchSize > 0);
-- 
2.43.0


From fe9e278797cdb433038fe43f0e058df9f5d0a7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:32 +0000
Subject: [PATCH 28/47] fix: a NaN gradient passed the gradient check

---
 nntl/nnet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index a4520a7..8a9d781 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -1106,7 +1106,7 @@ namespace nntl {
 					const real_t relErr = ::std::abs(dLan - dLnum) / ::std::max(::std::abs(dLan), ::std::abs(dLnum));
 					NNTL_ASSERT(!::std::isnan(relErr) && !::std::isinf(relErr));
 
-					if (relErr > *warnThrsh) {
+					if (!(relErr <= *warnThrsh)) {//NaN must not pass the check
 						if (relErr < *failThrsh) {
 							char _s[128];
 							sprintf_s(_s, "Relative error = %g (thrsh %g). Probably not an error.", relErr, *warnThrsh);
-- 
2.43.0


From 90fcf9acc5bcb8354e09757e7e44f83d12ec35d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:32 +0000
Subject: [PATCH 29/47] fix: dataHolder reported sample indices of a stale
 batch after a full batch

---
 nntl/utils/dataHolder.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nntl/utils/dataHolder.h b/nntl/utils/dataHolder.h
index 83ee29b..c07afec 100644
--- a/nntl/utils/dataHolder.h
+++ b/nntl/utils/dataHolder.h
@@ -165,7 +165,8 @@ namespace utils {
 		template<typename iRngT, typename iMathT>
 		void nextBatch(iRngT& iR, iMathT& iM)noexcept {
 			if (isFullBatch()) {
-				//nothing to do here
+				//no data to extract, just make curBatchIdxs() refer to the whole data
+				m_next = m_rowsIdxs.cend();
 			} else {
 				NNTL_ASSERT(m_rowsIdxs.size());
 				if (m_next >= m_rowsIdxs.cend() - curBatchSize()) {
-- 
2.43.0


From 2beaa3089b19612790d06695798b35b95a860297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:32 +0000
Subject: [PATCH 30/47] fix: the reported penalty of a gated pack included its
 gate, unlike its gradient

---
 nntl/layer/extender.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/nntl/layer/extender.h b/nntl/layer/extender.h
index bd99e10..e42ef0e 100644
--- a/nntl/layer/extender.h
+++ b/nntl/layer/extender.h
@@ -143,8 +143,7 @@ namespace nntl {
 			// 			return _PAB_t::_pab_lossAddendum(get_activations(), get_iMath())
 			// 				+ (_base_class_t::hasLossAddendum() ? _base_class_t::lossAddendum() : real_t(0));
 			// 			//the commented code above costs about 2% of run time comparing to variant without _base_class_t::hasLossAddendum() call
-			return _PAB_t::_pab_lossAddendum(get_activations(), get_common_data())
-				+ _base_class_t::lossAddendum();
+			return _lossAddendum4PA() + _base_class_t::lossAddendum();
 		}
 		template<bool c = bActivationPenalizationAvailable>
 		::std::enable_if_t<!c, real_t> lossAddendum()const noexcept { return _base_class_t::lossAddendum(); }
@@ -153,6 +152,18 @@ namespace nntl {
 		//////////////////////////////////////////////////////////////////////////
 
 	private:
+		//gate neurons aren't penalized, see also _fprop4PA() and _update_dLdA4PA()
+		template<typename T = _base_class_t>
+		::std::enable_if_t<is_pack_gated<T>::value, real_t> _lossAddendum4PA()const noexcept {
+			auto& act = const_cast<realmtxdef_t&>(get_activations());
+			const auto nogateAct = act.submatrix_cols_no_bias(_base_class_t::gate_neurons_count, act.cols_no_bias() - _base_class_t::gate_neurons_count);
+			return _PAB_t::_pab_lossAddendum(nogateAct, get_common_data());
+		}
+		template<typename T = _base_class_t>
+		::std::enable_if_t<!is_pack_gated<T>::value, real_t> _lossAddendum4PA()const noexcept {
+			return _PAB_t::_pab_lossAddendum(get_activations(), get_common_data());
+		}
+
 		template<bool c = bDropoutAvailable>
 		constexpr ::std::enable_if_t<!c, bool> _init_do(_layer_init_data_t& )const noexcept { return true; }
 
-- 
2.43.0


From 02b13ab813cfe7c7cb6600b9e156dbd9d9b96efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:15 +0000
Subject: [PATCH 31/47] fix: in training mode the reported penalty of a layer
 with dropout was that of the dropped-out activations

---
 nntl/layer/extender.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/nntl/layer/extender.h b/nntl/layer/extender.h
index e42ef0e..b2b1dd1 100644
--- a/nntl/layer/extender.h
+++ b/nntl/layer/extender.h
@@ -152,16 +152,24 @@ namespace nntl {
 		//////////////////////////////////////////////////////////////////////////
 
 	private:
+		//penalties are applied to activations that were before the dropout
+		template<bool c = bDropoutAvailable>
+		::std::enable_if_t<c, const realmtxdef_t&> _act4PA()const noexcept {
+			return _dropout_has_original_activations(get_common_data()) ? _dropout_get_original_activations() : get_activations();
+		}
+		template<bool c = bDropoutAvailable>
+		::std::enable_if_t<!c, const realmtxdef_t&> _act4PA()const noexcept { return get_activations(); }
+
 		//gate neurons aren't penalized, see also _fprop4PA() and _update_dLdA4PA()
 		template<typename T = _base_class_t>
 		::std::enable_if_t<is_pack_gated<T>::value, real_t> _lossAddendum4PA()const noexcept {
-			auto& act = const_cast<realmtxdef_t&>(get_activations());
+			auto& act = const_cast<realmtxdef_t&>(_act4PA());
 			const auto nogateAct = act.submatrix_cols_no_bias(_base_class_t::gate_neurons_count, act.cols_no_bias() - _base_class_t::gate_neurons_count);
 			return _PAB_t::_pab_lossAddendum(nogateAct, get_common_data());
 		}
 		template<typename T = _base_class_t>
 		::std::enable_if_t<!is_pack_gated<T>::value, real_t> _lossAddendum4PA()const noexcept {
-			return _PAB_t::_pab_lossAddendum(get_activations(), get_common_data());
+			return _PAB_t::_pab_lossAddendum(_act4PA(), get_common_data());
 		}
 
 		template<bool c = bDropoutAvailable>
-- 
2.43.0


From 7bc5addf4b10866a99a11ca682bf33be4500f4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:56 +0000
Subject: [PATCH 32/47] fix: the default "last epoch" of the dump conditions
 stuck to that of the first initialisation

---
 nntl/interface/inspectors/dumper.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nntl/interface/inspectors/dumper.h b/nntl/interface/inspectors/dumper.h
index 749f433..6f23ab1 100644
--- a/nntl/interface/inspectors/dumper.h
+++ b/nntl/interface/inspectors/dumper.h
@@ -54,9 +54,11 @@ namespace nntl {
 				void on_init_nnet(const numel_cnt_t totalEpochs)noexcept {
 					NNTL_ASSERT(totalEpochs > 0);
 					const auto lastEpochIdx = totalEpochs - 1;
-					if (!m_epochsToDump.size()) m_epochsToDump.push_back(lastEpochIdx);
 
 					m_dumpEpochCond.clear().resize(totalEpochs, false);
+					//an unset list means the last epoch of the current training. Note that it may be different during the next training,
+					// therefore m_epochsToDump must be left intact
+					if (!m_epochsToDump.size()) m_dumpEpochCond.verbose(lastEpochIdx);
 					for (const auto etd : m_epochsToDump) {
 						if (etd < totalEpochs) {
 							m_dumpEpochCond.verbose(etd);
-- 
2.43.0


From 9a04d925c8a54fb0d5a0412315629f31e0a65b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:56 +0000
Subject: [PATCH 33/47] fix: asking to dump the error calculation before
 training wrote outside of the list of epochs

---
 nntl/interface/inspectors/dumper.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nntl/interface/inspectors/dumper.h b/nntl/interface/inspectors/dumper.h
index 6f23ab1..4e82249 100644
--- a/nntl/interface/inspectors/dumper.h
+++ b/nntl/interface/inspectors/dumper.h
@@ -60,6 +60,7 @@ namespace nntl {
 					// therefore m_epochsToDump must be left intact
 					if (!m_epochsToDump.size()) m_dumpEpochCond.verbose(lastEpochIdx);
 					for (const auto etd : m_epochsToDump) {
+						if (etd < 0) continue;//idx_before_start is not an epoch
 						if (etd < totalEpochs) {
 							m_dumpEpochCond.verbose(etd);
 						} else m_dumpEpochCond.verbose(lastEpochIdx);
-- 
2.43.0


From da42cbae2b7320b2f94f265f88614e55faddcfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:57 +0000
Subject: [PATCH 34/47] fix: an inspector forgot layer names and lists when an
 initialised network was used again

---
 nntl/nnet.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index 8a9d781..2e7625d 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -337,6 +337,16 @@ namespace nntl {
 			return !m_bRequireReinit && is_initialized(biggestFprop, batchSize);
 		}
 
+		//init_nnet() makes an inspector to forget everything about layers. Layers introduce themselves to the inspector during
+		// their initialization only, so if the layers are already initialized, we must do it for them
+		void _reinit_inspector(const numel_cnt_t maxEpoch)noexcept {
+			auto& iI = get_iInspect();
+			iI.init_nnet(m_Layers.total_layers(), maxEpoch);
+			m_Layers.for_each_layer([&iI](auto& l)noexcept {
+				iI.init_layer(l.get_layer_idx(), l.get_layer_name_str(), l.get_layer_type_id());
+			});
+		}
+
 		//
 		// biggestFprop - the biggest expected batch size for inferencing/fprop
 		// batchSize - the biggest expected batch size for training/bprop (as well as inferencing/fprop for training also)
@@ -347,7 +357,7 @@ namespace nntl {
 			NNTL_ASSERT(biggestFprop > 0 && biggestFprop >= batchSize);
 			if (_is_initialized(biggestFprop, batchSize)) {
 				if (!get_iMath().init()) return ErrorCode::CantInitializeIMath;
-				get_iInspect().init_nnet(m_Layers.total_layers(), maxEpoch);
+				_reinit_inspector(maxEpoch);
 				return ErrorCode::Success;
 			}
 
@@ -369,7 +379,7 @@ namespace nntl {
 			if (_is_initialized(maxFPropSize, maxBatchSize)) {
 				//must call get_iMath().init() b/c td.init* could do iM.preinit()
 				if (!get_iMath().init()) return ErrorCode::CantInitializeIMath;
-				get_iInspect().init_nnet(m_Layers.total_layers(), maxEpoch);
+				_reinit_inspector(maxEpoch);
 				return ErrorCode::Success;
 			}
 
-- 
2.43.0


From dc09e52668e67be5090a19a929e13d19aaab69cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:45 +0000
Subject: [PATCH 35/47] fix: printing observers aborted on a huge loss value
 (the line buffer was too small)

---
 nntl/training_observer.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nntl/training_observer.h b/nntl/training_observer.h
index 12f81ea..037715a 100644
--- a/nntl/training_observer.h
+++ b/nntl/training_observer.h
@@ -147,7 +147,7 @@ namespace nntl {
 
 		void on_training_fragment_end(const numel_cnt_t epochEnded, const real_t trainLoss, const real_t testLoss, const nanoseconds& elapsedSincePrevFragment)noexcept {
 			static constexpr char* szReportFmt = "% 3zd/%-3zd %3.1fs trL=%8.5f, vL=%8.5f";
-			static constexpr unsigned uBufSize = 128;
+			static constexpr unsigned uBufSize = 1024;
 			
 			char szRep[uBufSize];
 			const real_t secs = real_t(elapsedSincePrevFragment.count()) / real_t(1e9);
@@ -253,7 +253,7 @@ namespace nntl {
 				NNTL_ASSERT(m_curDataSetId > 1 && m_classifRes.size() > m_curDataSetId && m_classifRes.size() > 2);
 				//outputting dataset stats here
 				static constexpr char* szReportFmt = "%s: Loss=%05.3f, Err=%.2f%% (%zd)";
-				static constexpr unsigned uBufSize = 128;
+				static constexpr unsigned uBufSize = 1024;
 
 				char szRep[uBufSize], dsName[LongestDatasetNameWNull];
 				m_dsNaming(m_curDataSetId, dsName, LongestDatasetNameWNull);
@@ -281,7 +281,7 @@ namespace nntl {
 
 		void on_training_fragment_end(const numel_cnt_t epochEnded, const real_t trainLoss, const real_t testLoss, const nanoseconds& elapsedSincePrevFragment)noexcept {
 			static constexpr char* szReportFmt = "% 3zd/%-3zd %3.1fs trL=%05.3f, trErr=%.2f%% (%zd), vL=%05.3f, vErr=%.2f%% (%zd)";
-			static constexpr unsigned uBufSize = 128;
+			static constexpr unsigned uBufSize = 1024;
 			
 			m_lastTrainErr = trainLoss;
 			m_lastTestErr = testLoss;
-- 
2.43.0


From 4b5bd4130c5ed928d89eaed25a990e4c1fc6a7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:45 +0000
Subject: [PATCH 36/47] fix: aggregation of the k best values lost or
 duplicated entries with equal values over several batches

---
 nntl/interface/math/_mcwFindKOrdered_hlpr.h | 35 +++++----------------
 1 file changed, 8 insertions(+), 27 deletions(-)

diff --git a/nntl/interface/math/_mcwFindKOrdered_hlpr.h b/nntl/interface/math/_mcwFindKOrdered_hlpr.h
index 194350e..8ea4130 100644
--- a/nntl/interface/math/_mcwFindKOrdered_hlpr.h
+++ b/nntl/interface/math/_mcwFindKOrdered_hlpr.h
@@ -295,7 +295,7 @@ namespace math {
 				const vec_len_t k = _base_t::get_k(hlpr), colmn = hlpr.cols();
 				if (batchIdx <= 0) {
 					const auto properSize = smatrix_td::mtx_size_t(k, colmn);
-					if (m_allData.size() != properSize) {
+					if (m_allData.empty() || m_allData.size() != properSize) {
 						m_allData.resize(properSize, tag_noBias());
 						if (m_allData.isAllocationFailed()) return false;
 					}
@@ -324,6 +324,9 @@ namespace math {
 						//invalid cache index (<0) signifies the values left from previous batches. If the index is valid,
 						//the value is from current batch.
 						// We should traverse cache now to properly aggregate it into m_allData
+						// Entries left are the best (i.e. the last) of old entries and their order is unchanged
+						vec_len_t oldR = k;
+						for (vec_len_t r = 0; r < k; ++r) if (pIdxs[r] < 0) --oldR;
 						for (vec_len_t hr = 0; hr < k; ++hr) {
 							//cache are written in ascending order, i.e. biggest - last
 							//NNTL_ASSERT(hr + 1 >= k || pVals[hr] < pVals[hr + 1]);
@@ -333,32 +336,10 @@ namespace math {
 							// new value at hr index could only be equal to or bigger than stored in m_allData.
 							if (nI < 0) {
 								//invalid index means that the value nV is left from old batch.
-								//NNTL_ASSERT(nV >= pDSE[hr].val);
-								NNTL_ASSERT(!OrderFunctor_t::first_better(pDSE[hr].val, nV));
-								if (nV == pDSE[hr].val) {
-									//nothing else should be done here. Every higher indexes must be the same, b/c any difference
-									//will lead to shifting values
-								#ifdef NNTL_DEBUG
-									for (vec_len_t r = hr + 1; r < k; ++r) {
-										NNTL_ASSERT(pDSE[r].val == pVals[r]);
-									}
-								#endif // NNTL_DEBUG
-									break;
-								} else {
-									// We must find corresponding entry in range [hr+1..k) and move it to the current position.
-									vec_len_t r = hr + 1;
-									for (; r < k; ++r) {
-										const auto& dse = pDSE[r];
-										//NNTL_ASSERT(nV >= dse.val);
-										NNTL_ASSERT(!OrderFunctor_t::first_better(dse.val, nV));
-										if (nV == dse.val) {
-											//moving dse to the hr index
-											pDSE[hr] = dse;
-											break;
-										}
-									}
-									NNTL_ASSERT(r < k || !"DatasetElement not found! WTF?!");
-								}
+								//If other entries are equal to nV too, they also have to be moved, so searching by the value won't do
+								NNTL_ASSERT(oldR >= hr && oldR < k && nV == pDSE[oldR].val);
+								if (oldR != hr) pDSE[hr] = pDSE[oldR];
+								++oldR;
 							} else {
 								//valid index means that the value nV is from the current batch. We must store it under hr index
 								auto& dse = pDSE[hr];
-- 
2.43.0


From cd43224b2efcb1ea59582c611de9989636f7d93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:45 +0000
Subject: [PATCH 37/47] fix: smatrix::resize() reported success without storage
 when repeated after a failed allocation

---
 nntl/interface/math/smatrix.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nntl/interface/math/smatrix.h b/nntl/interface/math/smatrix.h
index 6cc6706..88fa346 100644
--- a/nntl/interface/math/smatrix.h
+++ b/nntl/interface/math/smatrix.h
@@ -1057,7 +1057,8 @@ namespace math {
 				NNTL_ASSERT(!"Wrong row or col count!");
 				return false;
 			}
-			if (r == m_rows && c == m_cols) return true;
+			//m_pData must be checked too, because an object keeps its sizes after a failed allocation
+			if (m_pData && r == m_rows && c == m_cols) return true;
 			m_rows = r;
 			m_cols = c;
 			_realloc();
-- 
2.43.0


From 197be8e2b4c3b4621855b6f4a06a3169d2f5d8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:45 +0000
Subject: [PATCH 38/47] fix: smatrix constructors wrote biases through a null
 pointer after a failed allocation

---
 nntl/interface/math/smatrix.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nntl/interface/math/smatrix.h b/nntl/interface/math/smatrix.h
index 88fa346..5b9a9c4 100644
--- a/nntl/interface/math/smatrix.h
+++ b/nntl/interface/math/smatrix.h
@@ -342,7 +342,7 @@ namespace math {
 			m_cols += (_bEmulBias & !bBatchInR);
 			m_rows += (_bEmulBias & bBatchInR);
 			_realloc();
-			if (_bEmulBias) set_biases();
+			if (_bEmulBias && m_pData) set_biases();
 		}
 
 		// #supportsBatchInRow
@@ -354,7 +354,7 @@ namespace math {
 			m_cols += (_bEmulBias & !bBatchInR);
 			m_rows += (_bEmulBias & bBatchInR);
 			_realloc();
-			if (_bEmulBias) set_biases();
+			if (_bEmulBias && m_pData) set_biases();
 		}
 
 		// #supportsBatchInRow
@@ -366,7 +366,7 @@ namespace math {
 			m_cols += (_bEmulBias & !bBatchInR);
 			m_rows += (_bEmulBias & bBatchInR);
 			_realloc();
-			if (m_bEmulateBiases) set_biases();
+			if (m_bEmulateBiases && m_pData) set_biases();
 		}
 		
 		//useExternalStorage(value_ptr_t ptr, const smatrix& sizeLikeThis) variation
-- 
2.43.0


From 5e19c0a3de7729f5e3bcafabcccae26392ba9863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:45 +0000
Subject: [PATCH 39/47] fix: train data objects called themselves initialized
 after a failed init4inference()

---
 nntl/train_data/_train_data_simple.h | 5 ++++-
 nntl/train_data/transf_train_data.h  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/nntl/train_data/_train_data_simple.h b/nntl/train_data/_train_data_simple.h
index 151c973..3900985 100644
--- a/nntl/train_data/_train_data_simple.h
+++ b/nntl/train_data/_train_data_simple.h
@@ -156,7 +156,10 @@ namespace nntl {
 				}
 				m_maxFPropSize = maxFPropSize;
 
-				if (!get_self()._initBatches(maxFPropSize < biggestSetSize)) return nnet_errors_t::TdInitNoMemory;
+				if (!get_self()._initBatches(maxFPropSize < biggestSetSize)) {
+					get_self().deinit4all();//the object mustn't look like initialized
+					return nnet_errors_t::TdInitNoMemory;
+				}
 
 				return nnet_errors_t::Success;
 			}
diff --git a/nntl/train_data/transf_train_data.h b/nntl/train_data/transf_train_data.h
index 24c81f0..086cd03 100644
--- a/nntl/train_data/transf_train_data.h
+++ b/nntl/train_data/transf_train_data.h
@@ -274,7 +274,10 @@ namespace nntl {
 				maxFPropSize = static_cast<vec_len_t>(realFPropSize);
 				m_maxFPropSize = maxFPropSize;
 
-				if (!m_TFunct.init(iM, m_tdStor, base_maxFPropSize)) return nnet_errors_t::OtherTdInitError;
+				if (!m_TFunct.init(iM, m_tdStor, base_maxFPropSize)) {
+					get_self().deinit4all();//the object mustn't look like initialized
+					return nnet_errors_t::OtherTdInitError;
+				}
 
 				return nnet_errors_t::Success;
 			}
-- 
2.43.0


From 00fab14af2001cba0526bda9cdeab7093a206cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:45 +0000
Subject: [PATCH 40/47] fix: asynchronous RNG's init_rng() reported success
 when its buffer could not be allocated

---
 nntl/interface/rng/afrand_as.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nntl/interface/rng/afrand_as.h b/nntl/interface/rng/afrand_as.h
index 64bd915..8f7b8e7 100644
--- a/nntl/interface/rng/afrand_as.h
+++ b/nntl/interface/rng/afrand_as.h
@@ -496,9 +496,12 @@ namespace rng {
 		}
 
 		bool init_rng()noexcept { 
-			const bool b = _base_class_t::init_rng();
-			if (b && !asynch_rng_t::init_rng()) _base_class_t::deinit_rng();
-			return b;
+			if (!_base_class_t::init_rng()) return false;
+			if (!asynch_rng_t::init_rng()) {
+				deinit_rng();
+				return false;
+			}
+			return true;
 		}
 		void deinit_rng()noexcept {
 			_base_class_t::deinit_rng();
-- 
2.43.0


From 596befaa6178b78a4f77d740f10af5ac96d79fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:45 +0000
Subject: [PATCH 41/47] fix: smatrix::clone_to_no_bias() left a bias column in
 a destination that emulated biases

---
 nntl/interface/math/smatrix.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nntl/interface/math/smatrix.h b/nntl/interface/math/smatrix.h
index 5b9a9c4..54a403e 100644
--- a/nntl/interface/math/smatrix.h
+++ b/nntl/interface/math/smatrix.h
@@ -497,7 +497,8 @@ namespace math {
 					return false;
 				}
 			} else {				
-				if (!dest.resize(m_rows, cnb)) {
+				//the destination gets no bias column even if it used to emulate biases
+				if (!dest.resize(m_rows, cnb, tag_noBias())) {
 					NNTL_ASSERT(!"resize failed!");
 					return false;
 				}
-- 
2.43.0


From 5c01f6a4ad02228e72a54bd38b94691a15b31a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:01 +0000
Subject: [PATCH 42/47] fix: layer_idx_keeper::nestingLevel() compared a value
 with an iterator and did not compile

---
 nntl/utils/layer_idx_keeper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/utils/layer_idx_keeper.h b/nntl/utils/layer_idx_keeper.h
index f9faab2..aa6a826 100644
--- a/nntl/utils/layer_idx_keeper.h
+++ b/nntl/utils/layer_idx_keeper.h
@@ -99,7 +99,7 @@ namespace utils {
 			const auto s = _base_class_t::size();
 			const auto t = _base_class_t::top();
 			for (size_type i = 2; i <= s; ++i) {
-				if (t != ::std::prev(_base_class_t::_Get_container().end(), i)) {
+				if (t != *::std::prev(_base_class_t::_Get_container().end(), i)) {
 					break;
 				}
 				++nl;
-- 
2.43.0


From 746180e8be65049a4b74b8e8f7c7a7f0f1691593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:01 +0000
Subject: [PATCH 43/47] fix: duration_readable() kept dividing by 1000 after it
 had reached seconds

---
 nntl/utils/chrono.h | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/nntl/utils/chrono.h b/nntl/utils/chrono.h
index 5f38b73..ff771e6 100644
--- a/nntl/utils/chrono.h
+++ b/nntl/utils/chrono.h
@@ -89,6 +89,13 @@ namespace utils {
 	}
 	
 
+	//converts an amount of periods of durType into an amount of periods of newDurType (seconds are never scaled further)
+	template <typename newDurType, typename durType>
+	static double _rescale_duration(const double t)noexcept {
+		return ::std::chrono::duration<double, typename newDurType::period>(
+			::std::chrono::duration<double, typename durType::period>(t)).count();
+	}
+
 	template <typename durType>
 	static ::std::string duration_readable(durType d, uint64_t repeats=1, double* ptrSingleTime=nullptr)noexcept {
 		double t = static_cast<double>(d.count())/repeats;
@@ -97,23 +104,22 @@ namespace utils {
 		if (t<1000) {
 			name = chrono::period_name<durType>::name;
 		}else if (t < 1000000) {
-			t /= 1000;
-			name = chrono::period_name<
-				typename chrono::period_3oom_bigger<durType>::type
-			>::name;
+			typedef typename chrono::period_3oom_bigger<durType>::type bigger_t;
+			t = _rescale_duration<bigger_t, durType>(t);
+			name = chrono::period_name<bigger_t>::name;
 		} else if (t < 1000000000) {
-			t /= 1000000;
-			name = chrono::period_name<
-				typename chrono::period_3oom_bigger<
+			typedef typename chrono::period_3oom_bigger<
 				typename chrono::period_3oom_bigger<durType>::type
-				>::type >::name;
+				>::type bigger_t;
+			t = _rescale_duration<bigger_t, durType>(t);
+			name = chrono::period_name<bigger_t>::name;
 		} else {
-			t /= 1000000000;
-			name = chrono::period_name<
-				typename chrono::period_3oom_bigger<
+			typedef typename chrono::period_3oom_bigger<
 				typename chrono::period_3oom_bigger<
 				typename chrono::period_3oom_bigger<durType>::type
-				>::type >::type >::name;
+				>::type >::type bigger_t;
+			t = _rescale_duration<bigger_t, durType>(t);
+			name = chrono::period_name<bigger_t>::name;
 		}
 		constexpr unsigned MAX_STR_SIZE = 256;
 		char str[MAX_STR_SIZE];
-- 
2.43.0


From c316865d71ca84b6fead7a826d0d239e2e5004a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:01 +0000
Subject: [PATCH 44/47] fix: penalised layer inside a closed gate added the
 penalty of an earlier batch's activations to the loss

---
 nntl/layer/_layer_base.h              | 1 +
 nntl/layer/extender.h                 | 3 ++-
 nntl/layer/pack_horizontal_optional.h | 4 ++++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/nntl/layer/_layer_base.h b/nntl/layer/_layer_base.h
index 2186ab5..a54bd69 100644
--- a/nntl/layer/_layer_base.h
+++ b/nntl/layer/_layer_base.h
@@ -720,6 +720,7 @@ namespace nntl {
 		realmtxdef_t* get_activations_storage_mutable() noexcept { return get_self()._forwarder_layer().get_activations_storage_mutable(); }
 		realmtxdef_t& _get_activations_mutable() noexcept { return get_self()._forwarder_layer()._get_activations_mutable(); }
 		mtx_size_t get_activations_size()const noexcept { return get_self()._forwarder_layer().get_activations_size(); }
+		bool is_activations_valid()const noexcept { return get_self()._forwarder_layer().is_activations_valid(); }
 		bool is_activations_shared()const noexcept { return get_self()._forwarder_layer().is_activations_shared(); }
 
 	};
diff --git a/nntl/layer/extender.h b/nntl/layer/extender.h
index b2b1dd1..59b957c 100644
--- a/nntl/layer/extender.h
+++ b/nntl/layer/extender.h
@@ -143,7 +143,8 @@ namespace nntl {
 			// 			return _PAB_t::_pab_lossAddendum(get_activations(), get_iMath())
 			// 				+ (_base_class_t::hasLossAddendum() ? _base_class_t::lossAddendum() : real_t(0));
 			// 			//the commented code above costs about 2% of run time comparing to variant without _base_class_t::hasLossAddendum() call
-			return _lossAddendum4PA() + _base_class_t::lossAddendum();
+			//a layer inside of a gated pack isn't executed if its gate is closed for the whole batch, so it has no activations to penalize
+			return (_base_class_t::is_activations_valid() ? _lossAddendum4PA() : real_t(0)) + _base_class_t::lossAddendum();
 		}
 		template<bool c = bActivationPenalizationAvailable>
 		::std::enable_if_t<!c, real_t> lossAddendum()const noexcept { return _base_class_t::lossAddendum(); }
diff --git a/nntl/layer/pack_horizontal_optional.h b/nntl/layer/pack_horizontal_optional.h
index 66132a8..7c99c37 100644
--- a/nntl/layer/pack_horizontal_optional.h
+++ b/nntl/layer/pack_horizontal_optional.h
@@ -196,6 +196,8 @@ namespace nntl {
 			//depends on a gating neuron column content
 			const auto gtbs = gating_layer().on_batch_size_change(incBatchSize, m_activations.data());
 			NNTL_ASSERT(gtbs == outgBS);
+			//the real batch size is set during fprop(). Here we just mark activations of an earlier batch as invalid
+			for_each_gated_layer([incBatchSize](auto& l)noexcept { l.on_batch_size_change(incBatchSize, nullptr); });
 			return outgBS;
 		}
 
@@ -276,6 +278,8 @@ namespace nntl {
 					//pushing the layer's activations to our's activations				
 					iM.mFillRowsByMask(phl.l.get_activations(), pG, curAct);
 				} else {
+					//the layer isn't executed, activations of an earlier batch mustn't be mistaken for the current ones
+					phl.l.on_batch_size_change(1, nullptr);
 					//just zeroing current activations
 					curAct.zeros();
 				}
-- 
2.43.0


From 6c5f744ca97aa432c2daffa1a6b65ea69851792e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:01 +0000
Subject: [PATCH 45/47] fix: layer_output refused to compile with softmax
 activation

---
 nntl/layer/fully_connected.h | 3 ++-
 nntl/layer/output.h          | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/nntl/layer/fully_connected.h b/nntl/layer/fully_connected.h
index ae7ef55..56d819a 100644
--- a/nntl/layer/fully_connected.h
+++ b/nntl/layer/fully_connected.h
@@ -47,7 +47,8 @@ namespace nntl {
 		typedef _impl::_act_wrap<FinalPolymorphChild, InterfacesT, ActivFunc> _base_class_t;
 
 	public:
-		static_assert(bActivationForHidden, "ActivFunc template parameter should be derived from activations::_i_activation");
+		static_assert(bActivationForHidden || bActivationForOutput, "ActivFunc template parameter should be derived from "
+			"activations::_i_activation or (for an output layer) from activation::_i_activation_loss<>");
 
 		static constexpr const char _defName[] = "fclFP";
 		static constexpr bool bAssumeFPropOnly = bFPropOnlyInDerived;
diff --git a/nntl/layer/output.h b/nntl/layer/output.h
index db90f29..fe47997 100644
--- a/nntl/layer/output.h
+++ b/nntl/layer/output.h
@@ -47,8 +47,8 @@ namespace nntl {
 		typedef _LFC_FProp<FinalPolymorphChild, typename GradWorks::interfaces_t, ActivFunc, false> _base_class_t;
 
 	public:
-		static_assert(bActivationForOutput && bActivationForHidden, "ActivFunc template parameter must be derived from "
-			"activation::_i_activation_loss<> and activation::_i_activation<>");
+		//note that softmax has no dA/dZ implementation and therefore isn't derived from activation::_i_activation<>
+		static_assert(bActivationForOutput, "ActivFunc template parameter must be derived from activation::_i_activation_loss<>");
 
 		typedef GradWorks grad_works_t;
 		static_assert(::std::is_base_of<_impl::_i_grad_works<real_t>, grad_works_t>::value, "GradWorks template parameter should be derived from _i_grad_works");
-- 
2.43.0


From 0e375960bd98606c889582291a573f92b2794eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:52 +0000
Subject: [PATCH 46/47] fix: dropoutPercentActive() getter of alpha dropout was
 hidden by the setter

---
 nntl/dropout/alpha_dropout.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nntl/dropout/alpha_dropout.h b/nntl/dropout/alpha_dropout.h
index 3e11478..eddd7ca 100644
--- a/nntl/dropout/alpha_dropout.h
+++ b/nntl/dropout/alpha_dropout.h
@@ -129,6 +129,9 @@ namespace nntl {
 		}
 
 	public:
+		//the setter below hides the getter
+		using _base_class_t::dropoutPercentActive;
+
 		void dropoutPercentActive(const real_t dpa)noexcept {
 			_base_class_t::dropoutPercentActive(dpa);
 			if (bDropout()) {
-- 
2.43.0


From 3fdee710b251194eeb33c0dc6506a98e2e05ebe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:52 +0000
Subject: [PATCH 47/47] fix: dropout mask kept the size of an earlier batch
 when dropout was turned on in training mode

---
 nntl/dropout/dropout.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nntl/dropout/dropout.h b/nntl/dropout/dropout.h
index 6222c39..b918c6b 100644
--- a/nntl/dropout/dropout.h
+++ b/nntl/dropout/dropout.h
@@ -109,7 +109,8 @@ namespace nntl {
 
 			template<typename CommonDataT>
 			void _dropout_on_batch_size_change(const CommonDataT& CD, const vec_len_t outgBS)noexcept {
-				if (CD.is_training_mode() && bDropout()) {
+				//dropout may be turned on later without a change of the batch size, so must do it even if it is turned off now
+			if (CD.is_training_mode()) {
 					NNTL_ASSERT(!m_dropoutMask.empty());
 					m_dropoutMask.deform_rows(outgBS);
 
-- 
2.43.0

