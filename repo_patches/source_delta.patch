From 2d3a3af7658c0abf7608654234e12ecfc6f4d5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:51 +0000
Subject: [PATCH 01/21] fix: pack_C for the N-first schedule uses the block
 stride unpack_C and the schedule use

---
 src/pack_n_first.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pack_n_first.cpp b/src/pack_n_first.cpp
index 336f353..a0e2de1 100644
--- a/src/pack_n_first.cpp
+++ b/src/pack_n_first.cpp
@@ -202,7 +202,7 @@ void pack_C_single_buf_n_first(float* C, float* C_p, int M, int N, int p, blk_di
 
          C_offset = m*p*m_c*N + n*n_c;
 
-         pack_ob_C_single_buf(&C[C_offset], &C_p[C_p_offset + n*p*m_c*n_c_t], 
+         pack_ob_C_single_buf(&C[C_offset], &C_p[C_p_offset + n*m_c_t*n_c], 
             M, N, m1, n1, 0, m_c_t, n_c_t, m_r, n_r, pad_m, pad_n);
       }
    }
-- 
2.43.0


From 23b2f291632b0303e32bd161bbb99f7ebdba6349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:51 +0000
Subject: [PATCH 02/21] fix: grid_dims_2d finds the factor 1 and stays inside
 the table for any thread count

---
 src/block_sizing.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index 1c686c7..dc0673c 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -598,6 +598,17 @@ void init_block_dims(int M, int N, int K, int p,
 
 
 
+// whether pn cores fit a grid of p cores. The table only covers the core counts known at library 
+// creation, its row for p cores is (number of columns - p)
+static bool is_grid_dim(int p, int pn) {
+
+	int rows = sizeof(grid_dims) / sizeof(grid_dims[0]);
+	int row = (int) (sizeof(grid_dims[0]) / sizeof(grid_dims[0][0])) - p;
+
+	return (row >= 0 && row < rows) ? grid_dims[row][pn-1] : (p % pn == 0);
+}
+
+
 int grid_dims_2d(int M, int N, int K, int p, int ncores) {
 
 	int pn, low, high, pn_ret;
@@ -610,19 +621,19 @@ int grid_dims_2d(int M, int N, int K, int p, int ncores) {
 
 	// index into static table of factors to quickly find factor of p that is closest to optimal pn
 	// table is created at library creation
-	if(grid_dims[ncores - p][pn-1]) {
+	if(is_grid_dim(p, pn)) {
 		pn_ret = pn;
 		// pm = p / pn;
 	} else {
 		for(int i = pn; i < p; i++) {
-			if(grid_dims[ncores - p][i]) {
+			if(is_grid_dim(p, i + 1)) {
 				high = i;
 				break;
 			}
 		}
 
-		for(int i = (pn - 2); i > 0; i--) {
-			if(grid_dims[ncores - p][i]) {
+		for(int i = (pn - 2); i >= 0; i--) {
+			if(is_grid_dim(p, i + 1)) {
 				low = i;
 				break;
 			}
-- 
2.43.0


From 7a8ea7a5b91e616b64245c48a2f8c5f9f214caef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:01 +0000
Subject: [PATCH 03/21] fix: close every pipe opened to query the machine

---
 src/block_sizing.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index dc0673c..fafeda9 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -105,7 +105,7 @@ int get_num_physical_cores() {
 	if(fgets(ret1, sizeof(ret1), fp) == NULL) {
 		printf("cpuinfo error\n");
 	}
-	
+	pclose(fp);
 
 	char ret2[16];
 	char command2[128];
@@ -121,7 +121,7 @@ int get_num_physical_cores() {
 	if(fgets(ret2, sizeof(ret2), fp) == NULL) {
 		printf("lscpu error\n");
 	}
-	
+	pclose(fp);
 
 	char ret3[16];
 	char command3[128];
@@ -270,7 +270,10 @@ int get_cache_size(int level) {
 		exit(1);
 	}
 
-	if(fgets(ret, sizeof(ret), fp) == NULL) {
+	char* line = fgets(ret, sizeof(ret), fp);
+	pclose(fp);
+
+	if(line == NULL) {
 		printf("lscpu error\n");
 		// quick hack for raspberry pi 3 cache sizes (32 KiB L1, 512 KiB L2 shared)
 		if(level == 2) {
-- 
2.43.0


From ed2cf246cf85fd48dd553dbfb1ddbc5edfefa238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:15 +0000
Subject: [PATCH 04/21] fix: release the context an entry point queries for
 itself

---
 src/cake_sgemm.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/cake_sgemm.cpp b/src/cake_sgemm.cpp
index e708fa0..1060555 100644
--- a/src/cake_sgemm.cpp
+++ b/src/cake_sgemm.cpp
@@ -11,8 +11,9 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 	float alpha, float beta, enum sched sch, int mcu, int kcu, int ncu) {
 
 
+	cake_cntx_t* own_cntx = NULL;
 	if(cake_cntx == NULL) {
-		cake_cntx = cake_query_cntx();
+		cake_cntx = own_cntx = cake_query_cntx();
 	}
 
 	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
@@ -170,6 +171,7 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 	if(!packedA) free(A_p);
 	if(!packedB) free(B_p);
 	free(x);
+	free(own_cntx);
 
 	return diff_t;
 }
@@ -181,8 +183,9 @@ double cake_sgemm_2d(float* A, float* B, float* C, int M, int N, int K, int p,
 	float alpha, float beta, enum sched sch, int mcu, int kcu, int ncu) {
 
 
+	cake_cntx_t* own_cntx = NULL;
 	if(cake_cntx == NULL) {
-		cake_cntx = cake_query_cntx();
+		cake_cntx = own_cntx = cake_query_cntx();
 	}
 
 	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
@@ -242,6 +245,7 @@ double cake_sgemm_2d(float* A, float* B, float* C, int M, int N, int K, int p,
 	}
 	free(B_p);
 	free(x);
+	free(own_cntx);
 
 	return times;
 }
@@ -254,8 +258,9 @@ double cake_sgemm_2d_small(float* A, float* B, float* C, int M, int N, int K, in
 	cake_cntx_t* cake_cntx, char* argv[], bool packedA, bool packedB, float alpha, float beta, enum sched sch) {
 
 
+	cake_cntx_t* own_cntx = NULL;
 	if(cake_cntx == NULL) {
-		cake_cntx = cake_query_cntx();
+		cake_cntx = own_cntx = cake_query_cntx();
 	}
 
 	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
@@ -313,6 +318,7 @@ double cake_sgemm_2d_small(float* A, float* B, float* C, int M, int N, int K, in
 	}
 	free(B_p);
 	free(x);
+	free(own_cntx);
 
 	return times;
 }
@@ -399,8 +405,9 @@ double cake_sgemm_online(float* A, float* B, float* C, int M, int N, int K, int
 	float alpha, float beta, enum sched sch, int mcu, int kcu, int ncu) {
 
 
+	cake_cntx_t* own_cntx = NULL;
 	if(cake_cntx == NULL) {
-		cake_cntx = cake_query_cntx();
+		cake_cntx = own_cntx = cake_query_cntx();
 	}
 
 	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
@@ -463,6 +470,7 @@ double cake_sgemm_online(float* A, float* B, float* C, int M, int N, int K, int
 	}
 	free(B_p);
 	free(x);
+	free(own_cntx);
 
 	return times;
 }
@@ -474,8 +482,9 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 
 	sch = KMN;
 
+	cake_cntx_t* own_cntx = NULL;
 	if(cake_cntx == NULL) {
-		cake_cntx = cake_query_cntx();
+		cake_cntx = own_cntx = cake_query_cntx();
 	}
 
 	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
@@ -603,6 +612,7 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 	if(!packedB) free(B_p);
 	free(C_p);
 	free(x);
+	free(own_cntx);
 
 
 	return times;
-- 
2.43.0


From 86f5a5244ea423ba5d54c9e184263873518f36b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:15 +0000
Subject: [PATCH 05/21] fix: cake_query_cntx_torch fills in every field of the
 context

---
 src/block_sizing.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index fafeda9..506ecc7 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -12,6 +12,10 @@ cake_cntx_t* cake_query_cntx_torch(int L2, int L3) {
     cake_cntx_t* ret = (cake_cntx_t*) malloc(sizeof(cake_cntx_t));
     double alpha_n = 1.0;
     ret->alpha_n = alpha_n;
+	ret->L1 = get_cache_size(1);
+	ret->ncores = get_num_physical_cores();
+	ret->peak_dram_bw = 32 * 1e9; // TODO : hardcoded bw and flops on i9 for now
+	ret->peak_flops = 600 * 1e9;
  
     // query block size for the microkernel
 #ifdef USE_BLIS
@@ -22,13 +26,17 @@ cake_cntx_t* cake_query_cntx_torch(int L2, int L3) {
 
 #elif USE_CAKE_HASWELL
     ret->blis_cntx = NULL;
-    ret->mr = 6;
-    ret->nr = 16;
+    ret->mr = MR_MIN;
+    ret->nr = NR_MIN;
+    ret->m_map = (ret->mr/MR_FACT) - (MR_MIN / MR_FACT);
+    ret->n_map = (ret->nr/NR_FACT) - (NR_MIN / NR_FACT);
 
 #elif USE_CAKE_ARMV8
     ret->blis_cntx = NULL;
-    ret->mr = 8;
-    ret->nr = 12;
+    ret->mr = MR_MIN;
+    ret->nr = NR_MIN;
+    ret->m_map = (ret->mr/MR_FACT) - (MR_MIN / MR_FACT);
+    ret->n_map = (ret->nr/NR_FACT) - (NR_MIN / NR_FACT);
 #endif
 
 	ret->L2 = L2;
-- 
2.43.0


From beeac0841f2560efeb1361704a07047d060f76d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:15 +0000
Subject: [PATCH 06/21] fix: cake_sgemm_ukernel runs the kernel of the
 context's register tile

---
 include/kernel_wrapper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kernel_wrapper.h b/include/kernel_wrapper.h
index 6870f6c..edc4137 100644
--- a/include/kernel_wrapper.h
+++ b/include/kernel_wrapper.h
@@ -32,7 +32,7 @@ inline void cake_sgemm_ukernel(float* A_p, float* B_p, float* C_p,
 		(inc_t) n_r, (inc_t) 1, &def_data, (cntx_t*) cake_cntx->blis_cntx);
 
 #elif USE_CAKE_HASWELL
-	cake_sgemm_haswell_6x16(A_p, B_p, C_p, m_r, n_r, k_c_t);
+	kernel_map[cake_cntx->m_map][cake_cntx->n_map](A_p, B_p, C_p, m_r, n_r, k_c_t);
 #elif USE_CAKE_ARMV8
 	cake_sgemm_armv8_8x12(A_p, B_p, C_p, m_r, n_r, k_c_t);
 #endif
-- 
2.43.0


From e81af575c47671b0eb8d6f328b9de5871cf521f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 07/21] fix: online and 2d packing read A and B only inside
 their bounds

---
 src/cake_sgemm_k_first.cpp | 43 ++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/src/cake_sgemm_k_first.cpp b/src/cake_sgemm_k_first.cpp
index d88b65d..7942010 100644
--- a/src/cake_sgemm_k_first.cpp
+++ b/src/cake_sgemm_k_first.cpp
@@ -190,8 +190,12 @@ void schedule_KMN_2d_small(float* A, float* B, float* C, float* A_p, float* B_p,
 	// } else {
     	#pragma omp parallel for private(n2)
       	for(n2 = 0; n2 < N_padded; n2 += n_r) {
-         	B_packing_kernel(n_r, k_c_t, &kappa, &B[k*k_c*N + n2], lda, N, 
+			if(n2 + n_r > N) {
+				pack_ob_B_single_buf(&B[k*k_c*N + n2], &B_p[n2*k_c_t], K, N, n2, k_c_t, n_r, n_r, 1);
+			} else {
+         		B_packing_kernel(n_r, k_c_t, &kappa, &B[k*k_c*N + n2], lda, N, 
                                     &B_p[n2*k_c_t], n_r);
+			}
       	}
    	// }
 
@@ -200,8 +204,12 @@ void schedule_KMN_2d_small(float* A, float* B, float* C, float* A_p, float* B_p,
    	// } else {          
     	#pragma omp parallel for private(m3)
 		for(m3 = 0; m3 < M_padded; m3 += m_r) {
-			A_packing_kernel(m_r, k_c_t, &kappa, &A[k*k_c + m3*K], K, lda, 
-				&A_p[m3*k_c_t], m_r);
+			if(m3 + m_r > M) {
+				pack_ob_A_single_buf(&A[k*k_c + m3*K], &A_p[m3*k_c_t], M, K, 0, m3, m_r, k_c_t, m_r, 1);
+			} else {
+				A_packing_kernel(m_r, k_c_t, &kappa, &A[k*k_c + m3*K], K, lda, 
+					&A_p[m3*k_c_t], m_r);
+			}
 		}     
    	// }
 
@@ -377,8 +385,12 @@ void schedule_KMN_2d(float* A, float* B, float* C, float* A_p, float* B_p, float
 				} else {
 			    	#pragma omp parallel for private(n2)
 			      	for(n2 = 0; n2 < n_cb; n2 += n_r) {
-			         	B_packing_kernel(n_r, k_c_t, &kappa, &B[B_offset + n2], lda, N, 
+						if(n1 + n2 + n_r > N) {
+							pack_ob_B_single_buf(&B[B_offset + n2], &B_p[n2*k_c_t], K, N, n1 + n2, k_c_t, n_r, n_r, 1);
+						} else {
+			         		B_packing_kernel(n_r, k_c_t, &kappa, &B[B_offset + n2], lda, N, 
 			                                    &B_p[n2*k_c_t], n_r);
+						}
 			      	}
 				}
 		
@@ -388,8 +400,12 @@ void schedule_KMN_2d(float* A, float* B, float* C, float* A_p, float* B_p, float
 				} else {
 			    	#pragma omp parallel for private(m3)
 					for(m3 = 0; m3 < m_cb; m3 += m_r) {
-						A_packing_kernel(m_r, k_c_t, &kappa, &A[A_offset + m3*K], K, lda, 
-							&A_p[m3*k_c_t], m_r);
+						if(m1 + m3 + m_r > M) {
+							pack_ob_A_single_buf(&A[A_offset + m3*K], &A_p[m3*k_c_t], M, K, m1, m3, m_r, k_c_t, m_r, 1);
+						} else {
+							A_packing_kernel(m_r, k_c_t, &kappa, &A[A_offset + m3*K], K, lda, 
+								&A_p[m3*k_c_t], m_r);
+						}
 					}     
 				}
 
@@ -729,8 +745,12 @@ void schedule_KMN_online(float* A, float* B, float* C, float** A_p, float* B_p,
 			      	for(n2 = 0; n2 < n_c_t; n2 += n_r) {
 			        	 // bli_spackm_haswell_asm_16xk(n_r, k_c, &kappa, &B[n1 + k1*N + n2], lda, N, 
 			         	//                            &B_p[ind1 + (k1/k_c)*k_c*n_c + n2*k_c], n_r);
-			         	B_packing_kernel(n_r, k_c_t, &kappa, &B[n1 + k*k_c*N + n2], lda, N, 
+						if(n1 + n2 + n_r > N) {
+							pack_ob_B_single_buf(&B[n1 + k*k_c*N + n2], &B_p[n2*k_c_t], K, N, n1 + n2, k_c_t, n_r, n_r, 1);
+						} else {
+			         		B_packing_kernel(n_r, k_c_t, &kappa, &B[n1 + k*k_c*N + n2], lda, N, 
 			                                    &B_p[n2*k_c_t], n_r);
+						}
 			      	}
 				}
 
@@ -758,8 +778,13 @@ void schedule_KMN_online(float* A, float* B, float* C, float** A_p, float* B_p,
 						// printf("reuse A\n");
 					} else {
 						for(int m3 = 0; m3 < m_c_t; m3 += m_r) {
-							A_packing_kernel(m_r, k_c_t, &kappa, &A[A_offset + core*m_c_x*K + m3*K], K, lda, 
-								&A_p[core][m3*k_c_t], m_r);
+							if(m1 + core*m_c_x + m3 + m_r > M) {
+								pack_ob_A_single_buf(&A[A_offset + core*m_c_x*K + m3*K], &A_p[core][m3*k_c_t], 
+									M, K, m1, core*m_c_x + m3, m_r, k_c_t, m_r, 1);
+							} else {
+								A_packing_kernel(m_r, k_c_t, &kappa, &A[A_offset + core*m_c_x*K + m3*K], K, lda, 
+									&A_p[core][m3*k_c_t], m_r);
+							}
 						}     
 		            }
 
-- 
2.43.0


From 34c6d96bfaae0ce0ed592ea5fdf5df074f936e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 08/21] fix: pack_B pads the last columns of B for every core
 of the M-first and N-first schedules

---
 src/pack_m_first.cpp | 5 +----
 src/pack_n_first.cpp | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/pack_m_first.cpp b/src/pack_m_first.cpp
index 1c3aa18..c8ed66a 100644
--- a/src/pack_m_first.cpp
+++ b/src/pack_m_first.cpp
@@ -122,20 +122,17 @@ void pack_B_m_first(float* B, float* B_p, int K, int N, int p, blk_dims_t* x, ca
          for(core = 0; core < p_used; core++) {
 
             int k_c_t, k_c_x;
-            bool pad;
 
             if((k == Kb - 1) && k_pad) {
                k_c_t = (core == (p_l - 1) ? k_c1_last_core : k_c1);
                k_c_x = k_c1;
-               pad = (core == (p_l - 1) ? 1 : 0);
             } else {
                k_c_t = k_c;
                k_c_x = k_c;
-               pad = 0;
             }
 
             pack_ob_B_single_buf(&B[B_offset + core*k_c_x*N], &B_p[B_p_offset + core*k_c_x*n_c_t], 
-               K, N, n1, k_c_t, n_c_t, n_r, pad);
+               K, N, n1, k_c_t, n_c_t, n_r, (n == Nb - 1) && n_pad);
          }
 
          B_p_offset += k_cb*n_c_t;
diff --git a/src/pack_n_first.cpp b/src/pack_n_first.cpp
index a0e2de1..848a19c 100644
--- a/src/pack_n_first.cpp
+++ b/src/pack_n_first.cpp
@@ -122,20 +122,17 @@ void pack_B_n_first(float* B, float* B_p, int K, int N, int p, blk_dims_t* x, ca
          for(core = 0; core < p_used; core++) {
 
             int k_c_t, k_c_x;
-            bool pad;
 
             if((k == Kb - 1) && k_pad) {
                k_c_t = (core == (p_l - 1) ? k_c1_last_core : k_c1);
                k_c_x = k_c1;
-               pad = (core == (p_l - 1) ? 1 : 0);
             } else {
                k_c_t = k_c;
                k_c_x = k_c;
-               pad = 0;
             }
 
             pack_ob_B_single_buf(&B[B_offset + core*k_c_x*N], &B_p[B_p_offset + core*k_c_x*n_c_t], 
-               K, N, n1, k_c_t, n_c_t, n_r, pad);
+               K, N, n1, k_c_t, n_c_t, n_r, (n == Nb - 1) && n_pad);
          }
 
          B_p_offset += k_cb*n_c_t;
-- 
2.43.0


From eb4096641fac94940eba8c620dd98b3ec045a348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:13 +0000
Subject: [PATCH 09/21] fix: transpose_mat copies every edge tile once

---
 src/transpose.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/transpose.cpp b/src/transpose.cpp
index 6a03906..615c81c 100644
--- a/src/transpose.cpp
+++ b/src/transpose.cpp
@@ -18,7 +18,8 @@ void transpose_mat(float* A_old, float* At, int K, int N, int Kt, int Nt) {
 				for(int kk = k; kk < k + kt; kk+=kr) { 
 		
 					if((nn + nr > N) || (kk + kr > K)) {
-						transpose_mxn(&A_old[kk*N + nn], &At[nn*K + kk], lda, ldb, N - nn, K - kk);			
+						transpose_mxn(&A_old[kk*N + nn], &At[nn*K + kk], lda, ldb, 
+							cake_min(nr, N - nn), cake_min(kr, K - kk));			
 					} else {
 						transpose_8x8(&A_old[kk*N + nn], &At[nn*K + kk], lda, ldb);
 					}
-- 
2.43.0


From 2dd23840f26cb783d87194050f6338616f1b55cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:13 +0000
Subject: [PATCH 10/21] fix: every entry point computes C = alpha*A*B + beta*C

---
 src/cake_sgemm.cpp | 65 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 65 insertions(+)

diff --git a/src/cake_sgemm.cpp b/src/cake_sgemm.cpp
index 1060555..aac832b 100644
--- a/src/cake_sgemm.cpp
+++ b/src/cake_sgemm.cpp
@@ -5,6 +5,30 @@
 
 
 
+// temporary for A*B when C = alpha*A*B + beta*C can not be computed in place
+static float* alloc_AB(int M, int N) {
+
+	float* AB = (float*) malloc(((size_t) M) * N * sizeof(float));
+	if(AB == NULL) {
+		printf("malloc error\n");
+		exit(1);
+	}
+	return AB;
+}
+
+
+// C = alpha*AB + beta*C, C is not read if beta is 0
+static void scale_AB(float* AB, float* C, int M, int N, float alpha, float beta) {
+
+	#pragma omp parallel for
+	for(int m = 0; m < M; m++) {
+		for(int n = 0; n < N; n++) {
+			size_t ind = ((size_t) m)*N + n;
+			C[ind] = (beta != 0) ? (alpha*AB[ind] + beta*C[ind]) : alpha*AB[ind];
+		}
+	}
+}
+
 
 double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p, 
 	cake_cntx_t* cake_cntx, char* argv[], bool packedA, bool packedB, 
@@ -35,6 +59,17 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 	init_block_dims(M, N, K, p, x, cake_cntx, sch, argv, 4, mcu, kcu, ncu);
 	sch = x->sch;
 
+	// only the M-first and N-first schedules add to a packed C, which is beta = 1
+	if(alpha != 1 || (beta != 0 && (beta != 1 || sch == KMN))) {
+		float* AB = alloc_AB(M, N);
+		double t = cake_sgemm(A, B, AB, M, N, K, p, cake_cntx, argv, packedA, packedB, 1, 0, sch, mcu, kcu, ncu);
+		scale_AB(AB, C, M, N, alpha, beta);
+		free(AB);
+		free(x);
+		free(own_cntx);
+		return t;
+	}
+
 
     if(DEBUG) printf("m_r = %d, n_r = %d\n\n", cake_cntx->mr, cake_cntx->nr);
     if(DEBUG) printf("mc = %d, kc = %d, nc = %d, alpha_n = %f\n", x->m_c, x->k_c, x->n_c, cake_cntx->alpha_n);
@@ -205,6 +240,16 @@ double cake_sgemm_2d(float* A, float* B, float* C, int M, int N, int K, int p,
 	init_block_dims_2d(M, N, K, p, x, cake_cntx, sch, argv, 4, mcu, kcu, ncu);
 	sch = x->sch;
 
+	if(alpha != 1 || beta != 0) {
+		float* AB = alloc_AB(M, N);
+		double t = cake_sgemm_2d(A, B, AB, M, N, K, p, cake_cntx, argv, packedA, packedB, 1, 0, sch, mcu, kcu, ncu);
+		scale_AB(AB, C, M, N, alpha, beta);
+		free(AB);
+		free(x);
+		free(own_cntx);
+		return t;
+	}
+
     // printf("pm = %d, pn = %d\n\n", x->pm, x->pn);
 
     if(DEBUG) printf("m_r = %d, n_r = %d\n\n", cake_cntx->mr, cake_cntx->nr);
@@ -280,6 +325,16 @@ double cake_sgemm_2d_small(float* A, float* B, float* C, int M, int N, int K, in
 	init_block_dims_2d_small(M, N, K, p, x, cake_cntx, sch, argv);
 	sch = x->sch;
 
+	if(alpha != 1 || beta != 0) {
+		float* AB = alloc_AB(M, N);
+		double t = cake_sgemm_2d_small(A, B, AB, M, N, K, p, cake_cntx, argv, packedA, packedB, 1, 0, sch);
+		scale_AB(AB, C, M, N, alpha, beta);
+		free(AB);
+		free(x);
+		free(own_cntx);
+		return t;
+	}
+
     if(DEBUG) printf("m_r = %d, n_r = %d\n\n", cake_cntx->mr, cake_cntx->nr);
     if(DEBUG) printf("mc = %d, kc = %d, nc = %d, alpha_n = %f\n", x->m_c, x->k_c, x->n_c, cake_cntx->alpha_n);
     if(DEBUG) print_schedule(sch);
@@ -428,6 +483,16 @@ double cake_sgemm_online(float* A, float* B, float* C, int M, int N, int K, int
 	init_block_dims(M, N, K, p, x, cake_cntx, sch, argv, 4, mcu, kcu, ncu);
 	sch = x->sch;
 
+	if(alpha != 1 || beta != 0) {
+		float* AB = alloc_AB(M, N);
+		double t = cake_sgemm_online(A, B, AB, M, N, K, p, cake_cntx, argv, packedA, packedB, 1, 0, sch, mcu, kcu, ncu);
+		scale_AB(AB, C, M, N, alpha, beta);
+		free(AB);
+		free(x);
+		free(own_cntx);
+		return t;
+	}
+
     if(DEBUG) printf("m_r = %d, n_r = %d\n\n", cake_cntx->mr, cake_cntx->nr);
     if(DEBUG) printf("mc = %d, kc = %d, nc = %d, alpha_n = %f\n", x->m_c, x->k_c, x->n_c, cake_cntx->alpha_n);
     if(DEBUG) print_schedule(sch);
-- 
2.43.0


From efe37b16d90d0f7c48f9d4ed921af6c38bf85ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 11/21] fix: cake_sgemm_2d_small gives no core rows or columns
 outside the padded matrices

---
 src/block_sizing.cpp       | 9 +++++----
 src/cake_sgemm_k_first.cpp | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index 506ecc7..6ceaffc 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -843,11 +843,12 @@ void init_block_dims_2d_small(int M, int N, int K, int p,
 	M_padded = (M % m_r) ? (M + (m_r - (M % m_r))) : M;
 	N_padded = (N % n_r) ? (N + (n_r - (N % n_r))) : N;
 	
-	m_c = (M_padded / pm);
-	m_c += (m_r - (m_c % m_r));
+	m_c = m_r * (int) ceil( ((double) M_padded) / (m_r*pm) );
+	n_c = n_r * (int) ceil( ((double) N_padded) / (n_r*pn) );
 
-	n_c = (N_padded / pn);
-	n_c += (n_r - (n_c % n_r));
+	// only use as many cores as there are blocks 
+	pm = (int) ceil( ((double) M_padded) / m_c );
+	pn = (int) ceil( ((double) N_padded) / n_c );
 
 	// based on mr*kc + kc*nr + mr*nr <= L1 
 	kc_max = ((cake_cntx->L1 / type_size) - m_r*n_r) / (m_r + n_r); 
diff --git a/src/cake_sgemm_k_first.cpp b/src/cake_sgemm_k_first.cpp
index 7942010..67058e8 100644
--- a/src/cake_sgemm_k_first.cpp
+++ b/src/cake_sgemm_k_first.cpp
@@ -171,7 +171,7 @@ void schedule_KMN_2d_small(float* A, float* B, float* C, float* A_p, float* B_p,
 	int k, n2, m3, k_c_t, core, p_used;
 	float kappa = 1.0;
 	int lda = 1;
-	p_used = p;
+	p_used = pm*pn;
 
 
 	int M_padded = x->M_padded;
-- 
2.43.0


From 56ad8279cd869a1f26b52c55cbd68c293dc71a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 12/21] fix: the result checkers reject not-a-number results

---
 src/util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index 2c7bd56..6f47b7f 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -146,7 +146,7 @@ bool mat_equals(float* C, float* C_check, int M, int N) {
 	for(int m = 0; m < M; m++) {
 	    for(int n = 0; n < N; n++) {
 	        // if(C_check[m1*N + n1] != C[ind1]) {
-	        if(fabs(C_check[ind1] - C[ind1]) > eps) {
+	        if(C_check[ind1] != C[ind1] && !(fabs(C_check[ind1] - C[ind1]) <= eps)) {
 	            cnt++;
 	            CORRECT = 0;
 	        }
@@ -221,7 +221,7 @@ bool add_checker(float** C_arr, float* C, int M, int N, int p) {
 
     for(int i = 0; i < M*N; i++) {
         // if(C_check[m1*N + n1] != C[ind1]) {
-        if(fabs(C_check[ind1] - C[ind1]) > eps) {
+        if(C_check[ind1] != C[ind1] && !(fabs(C_check[ind1] - C[ind1]) <= eps)) {
             cnt++;
             CORRECT = 0;
         }
-- 
2.43.0


From 9bfd74072a8a39214565dac4192f4755bc7801eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 13/21] fix: get_cache_size reads cache sizes with a fraction
 or in gigabytes

---
 src/block_sizing.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index 6ceaffc..98c4385 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -262,13 +262,13 @@ int get_cache_size(int level) {
 	if(level < 3) {
 		sprintf(command, "lscpu --caches=NAME,ONE-SIZE \
 						| grep L%d \
-						| grep -Eo '[0-9]*M|[0-9]*K|0-9*G' \
+						| grep -Eo '[0-9.]+[KMG]' \
 						| tr -d '\n'", level);
 		fp = popen(command, "r");
 	} else {
 		sprintf(command, "lscpu --caches=NAME,ALL-SIZE \
 						| grep L%d \
-						| grep -Eo '[0-9]*M|[0-9]*K|0-9*G' \
+						| grep -Eo '[0-9.]+[KMG]' \
 						| tr -d '\n'", level);
 		fp = popen(command, "r");
 	}
@@ -296,13 +296,13 @@ int get_cache_size(int level) {
 	// set cache size variables
 	if(ret[len] == 'K') {
 		ret[len] = '\0';
-		size = atoi(ret) * (1 << 10);
+		size = (int) (atof(ret) * (1 << 10));
 	} else if(ret[len] == 'M') {
 		ret[len] = '\0';
-		size = atoi(ret) * (1 << 20);
+		size = (int) (atof(ret) * (1 << 20));
 	} else if(ret[len] == 'G') {
 		ret[len] = '\0';
-		size = atoi(ret) * (1 << 30);
+		size = (int) clamp_val(atof(ret) * (1 << 30), 0, INT32_MAX);
 	}
 
 	return size;
-- 
2.43.0


From 19e36841aa3ac1c633a03974fb5de9ab16f8687b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 14/21] fix: packed buffer sizes do not overflow int

---
 src/pack_helper.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pack_helper.cpp b/src/pack_helper.cpp
index b7b728e..c4dd432 100644
--- a/src/pack_helper.cpp
+++ b/src/pack_helper.cpp
@@ -32,7 +32,7 @@ size_t cake_sgemm_packed_A_size(int M, int K, int p, blk_dims_t* x, cake_cntx_t*
 		}
 	}
 
-	return (M_padded * K) * sizeof(float);
+	return ((size_t) M_padded) * K * sizeof(float);
 }
 
 
@@ -43,7 +43,7 @@ size_t cake_sgemm_packed_B_size(int K, int N, int p, blk_dims_t* x, cake_cntx_t*
 	int n_c1 = nr_rem * cake_cntx->nr;
 	int N_padded = (N - (N % x->n_c)) + n_c1;
 
-	return (K * N_padded) * sizeof(float);
+	return ((size_t) K) * N_padded * sizeof(float);
 }
 
 
@@ -83,7 +83,7 @@ size_t cake_sgemm_packed_C_size(int M, int N, int p, blk_dims_t* x, cake_cntx_t*
 	int n_c1 = nr_rem * cake_cntx->nr;
 	int N_padded = (N - (N % x->n_c)) + n_c1;
 
-	return (M_padded * N_padded) * sizeof(float);
+	return ((size_t) M_padded) * N_padded * sizeof(float);
 }
 
 
-- 
2.43.0


From 6a1e0ae22f6654038552df2a6763817822d91191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:44 +0000
Subject: [PATCH 15/21] fix: the machine query copes with fields and caches
 lscpu does not report

---
 src/block_sizing.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index 98c4385..9833493 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -99,7 +99,7 @@ void update_mr_nr(cake_cntx_t* cake_cntx, int m_r, int n_r) {
 int get_num_physical_cores() {
 
 	FILE *fp;
-	char ret1[16];
+	char ret1[16] = "";
 	char command1[128];
 
 	sprintf(command1, "grep -c ^processor /proc/cpuinfo");
@@ -115,7 +115,7 @@ int get_num_physical_cores() {
 	}
 	pclose(fp);
 
-	char ret2[16];
+	char ret2[16] = "";
 	char command2[128];
 
 	sprintf(command2, "lscpu | grep Thread -m 1 | tr -dc '0-9'");
@@ -131,7 +131,7 @@ int get_num_physical_cores() {
 	}
 	pclose(fp);
 
-	char ret3[16];
+	char ret3[16] = "";
 	char command3[128];
 
 	sprintf(command3, "lscpu | grep Socket -m 1 | tr -dc '0-9'");
@@ -147,7 +147,10 @@ int get_num_physical_cores() {
 	}
 
 	pclose(fp);
-	return atoi(ret1) / (atoi(ret2)*atoi(ret3));
+
+	// a field lscpu does not report counts as 1
+	int threads = cake_max(atoi(ret2), 1), sockets = cake_max(atoi(ret3), 1);
+	return cake_max(atoi(ret1) / (threads*sockets), 1);
 }
 
 
@@ -157,7 +160,7 @@ int get_cache_size(int level) {
 
 	int model_id, len, size = 0;
 	FILE *fp;
-	char ret[16];
+	char ret[16] = "";
 	char command[128];
 
 	sprintf(command, "lscpu | grep Model \
@@ -284,7 +287,7 @@ int get_cache_size(int level) {
 	if(line == NULL) {
 		printf("lscpu error\n");
 		// quick hack for raspberry pi 3 cache sizes (32 KiB L1, 512 KiB L2 shared)
-		if(level == 2) {
+		if(level == 1 || level == 2) {
 			return (32 * (1 << 10));
 		} else if(level == 3) {
 			return (512 * (1 << 10));
-- 
2.43.0


From 85e8f03567debaae3306e3b49e414283c777882d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:48 +0000
Subject: [PATCH 16/21] fix: cake_sgemm_test computes the product instead of
 returning zeros

---
 src/cake_sgemm.cpp | 56 ++++++++++++++++------------------------------
 1 file changed, 19 insertions(+), 37 deletions(-)

diff --git a/src/cake_sgemm.cpp b/src/cake_sgemm.cpp
index aac832b..71dad57 100644
--- a/src/cake_sgemm.cpp
+++ b/src/cake_sgemm.cpp
@@ -559,11 +559,11 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 	// 	return 1;
 	// }
 
-	size_t A_sz, B_sz, C_sz;	
+	size_t A_sz, B_sz;	
 	struct timespec start, end, start1, end1;
 	long seconds, nanoseconds;
 	double diff_t, times;
-	float *A_p, *B_p, *C_p;
+	float *A_p, *B_p;
 
 
 	clock_gettime(CLOCK_REALTIME, &start1);
@@ -571,6 +571,16 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 	init_block_dims(M, N, K, p, x, cake_cntx, sch, argv);
 	sch = x->sch;
 
+	if(alpha != 1 || beta != 0) {
+		float* AB = alloc_AB(M, N);
+		double t = cake_sgemm_test(A, B, AB, M, N, K, p, cake_cntx, argv, packedA, packedB, 1, 0, sch);
+		scale_AB(AB, C, M, N, alpha, beta);
+		free(AB);
+		free(x);
+		free(own_cntx);
+		return t;
+	}
+
     if(DEBUG) printf("m_r = %d, n_r = %d\n\n", cake_cntx->mr, cake_cntx->nr);
     if(DEBUG) printf("mc = %d, kc = %d, nc = %d, alpha_n = %f\n", x->m_c, x->k_c, x->n_c, cake_cntx->alpha_n);
     if(DEBUG) print_schedule(sch);
@@ -618,35 +628,15 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 	}
 
 
-	// C = alpha*A*B + beta*C. If beta is !=0, we must explicitly pack C, 
-	// otherwise just allocate an empty C_p buffer
-	if(beta != 0) {
-
-		clock_gettime(CLOCK_REALTIME, &start);
-
-	    C_sz = cake_sgemm_packed_C_size(M, N, p, x, cake_cntx, sch);
-		if(posix_memalign((void**) &C_p, 64, C_sz)) {
-			printf("posix memalign error\n");
-			exit(1);
-		}
-
-		pack_C(C, C_p, M, N, p, x, cake_cntx, sch);
-
-	    clock_gettime(CLOCK_REALTIME, &end);
-	    seconds = end.tv_sec - start.tv_sec;
-	    nanoseconds = end.tv_nsec - start.tv_nsec;
-	    diff_t = seconds + nanoseconds*1e-9;
-		if(DEBUG) printf("C pack time: %f \n", diff_t ); 
+	float *C_p[p];
 
-	} else {
-	    C_sz = cake_sgemm_packed_C_size(M, N, p, x, cake_cntx, sch) / sizeof(float);
-	    C_p = (float*) calloc(C_sz, sizeof(float));
+	for(int i = 0; i < p; i++) {
+		C_p[i] = (float*) calloc(x->m_c * x->n_c, sizeof(float));
 	}
 
 	clock_gettime(CLOCK_REALTIME, &start);
 
-	// schedule_KMN_C_unpacked(A_p, B_p, C_p, M, N, K, p, cake_cntx, x);
-	schedule(A_p, B_p, C_p, M, N, K, p, cake_cntx, x, sch, 0, 0);
+	schedule_KMN(A_p, B_p, C, C_p, M, N, K, p, cake_cntx, x); 
 
     clock_gettime(CLOCK_REALTIME, &end);
     seconds = end.tv_sec - start.tv_sec;
@@ -656,16 +646,9 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 
 	times = diff_t;
 
-	clock_gettime(CLOCK_REALTIME, &start);
-
-	unpack_C(C, C_p, M, N, p, x, cake_cntx, sch); 
-    // cake_sgemm_checker(A, B, C_p, N, M, K);
-
-    clock_gettime(CLOCK_REALTIME, &end);
-    seconds = end.tv_sec - start.tv_sec;
-    nanoseconds = end.tv_nsec - start.tv_nsec;
-    diff_t = seconds + nanoseconds*1e-9;
-	if(DEBUG) printf("unpacking time: %f \n", diff_t); 	// exit(1);
+	for(int i = 0; i < p; i++) {
+		free(C_p[i]);
+	}
 
     clock_gettime(CLOCK_REALTIME, &end1);
     seconds = end1.tv_sec - start1.tv_sec;
@@ -675,7 +658,6 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 
 	if(!packedA) free(A_p);
 	if(!packedB) free(B_p);
-	free(C_p);
 	free(x);
 	free(own_cntx);
 
-- 
2.43.0


From 6330ce7d9a626cbc8434246d3eacf766312cf4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:05 +0000
Subject: [PATCH 17/21] fix: the automatic loop order does not degenerate when
 the block ratio is zero

---
 src/block_sizing.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index 9833493..84f9f82 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -458,8 +458,9 @@ enum sched derive_schedule(int M, int N, int K, int p,
 	K_cut_N = (2.0*N) / (1.0 + (N * ((2.0/k) - (1.0/n))));
 
 	// N/M dim cutoffs for M vs N choice
-	m = (float) (cake_cntx->alpha_n*p*mc_ret);
-	n = (float) (cake_cntx->alpha_n*p*mc_ret);
+	// (alpha_n is 0 when the L3 holds no block for every core)
+	m = (float) fmax(cake_cntx->alpha_n*p*mc_ret, 1.0);
+	n = (float) fmax(cake_cntx->alpha_n*p*mc_ret, 1.0);
 	N_cut_M = M / (1.0 + (M * ((1.0/n) - (1.0/m))));
 	M_cut_N = N / (1.0 + (N * ((1.0/m) - (1.0/n))));
 
-- 
2.43.0


From cbef71320b25a5e269df8604b3e7d285f63ab50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:53 +0000
Subject: [PATCH 18/21] fix: threads of the on-line schedule no longer all
 write one shared offset

---
 src/cake_sgemm_k_first.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cake_sgemm_k_first.cpp b/src/cake_sgemm_k_first.cpp
index 67058e8..ce519e4 100644
--- a/src/cake_sgemm_k_first.cpp
+++ b/src/cake_sgemm_k_first.cpp
@@ -754,6 +754,8 @@ void schedule_KMN_online(float* A, float* B, float* C, float** A_p, float* B_p,
 			      	}
 				}
 
+				A_offset = m*p*m_c*K + k*k_c;
+
 				// pragma omp here (i_c loop)
 				#pragma omp parallel for private(core)
 				for(core = 0; core < p_used; core++) {
@@ -770,8 +772,6 @@ void schedule_KMN_online(float* A, float* B, float* C, float** A_p, float* B_p,
 						m_c_x = m_c; 
 					}
 
-					A_offset = m*p*m_c*K + k*k_c;
-
 			            // pack_ob_A_single_buf(&A[A_offset + core*m_c_x*K], A_p[core], 
 			            //    M, K, m*p*m_c, core*m_c_x, m_c_t, k_c_t, m_r, pad);
 					if((k == k_start) && (m == m_start) && (n != 0))  {
-- 
2.43.0


From 6802a748b5ac55291f0899ca3b6c174a61a9ac15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:14 +0000
Subject: [PATCH 19/21] fix: the armv8 build runs the micro-kernel of the
 context's register tile

---
 include/kernel_wrapper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kernel_wrapper.h b/include/kernel_wrapper.h
index edc4137..e809358 100644
--- a/include/kernel_wrapper.h
+++ b/include/kernel_wrapper.h
@@ -34,7 +34,7 @@ inline void cake_sgemm_ukernel(float* A_p, float* B_p, float* C_p,
 #elif USE_CAKE_HASWELL
 	kernel_map[cake_cntx->m_map][cake_cntx->n_map](A_p, B_p, C_p, m_r, n_r, k_c_t);
 #elif USE_CAKE_ARMV8
-	cake_sgemm_armv8_8x12(A_p, B_p, C_p, m_r, n_r, k_c_t);
+	kernel_map[cake_cntx->m_map][cake_cntx->n_map](A_p, B_p, C_p, m_r, n_r, k_c_t);
 #endif
 
 }
-- 
2.43.0


From 11ac6f31a613c2e06162cf1bc713415cd280afe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:06 +0000
Subject: [PATCH 20/21] fix: transposing matrices of 2^31 and more elements
 overflowed int offsets

---
 src/kernels/haswell/transpose_haswell.cpp | 6 ++++--
 src/transpose.cpp                         | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/kernels/haswell/transpose_haswell.cpp b/src/kernels/haswell/transpose_haswell.cpp
index d2a2faf..7a7acf9 100644
--- a/src/kernels/haswell/transpose_haswell.cpp
+++ b/src/kernels/haswell/transpose_haswell.cpp
@@ -6,13 +6,15 @@ void transpose_mxn(float* A, float* B, int lda, int ldb, int m, int n) {
 
 	for(int i = 0; i < m; i++) {
 		for(int j = 0; j < n; j++) {
-			B[i*ldb + j] = A[j*lda + i];
+			B[(size_t) i*ldb + j] = A[(size_t) j*lda + i];
 		}
 	}
 }
 
 
-void transpose_8x8(float* A, float* B, int lda, int ldb) {
+void transpose_8x8(float* A, float* B, int lda_in, int ldb_in) {
+
+	const size_t lda = lda_in, ldb = ldb_in;
 
 	__m256 row0 = _mm256_loadu_ps((A + 0 * lda));
 	__m256 row1 = _mm256_loadu_ps((A + 1 * lda));
diff --git a/src/transpose.cpp b/src/transpose.cpp
index 615c81c..58351fe 100644
--- a/src/transpose.cpp
+++ b/src/transpose.cpp
@@ -18,10 +18,10 @@ void transpose_mat(float* A_old, float* At, int K, int N, int Kt, int Nt) {
 				for(int kk = k; kk < k + kt; kk+=kr) { 
 		
 					if((nn + nr > N) || (kk + kr > K)) {
-						transpose_mxn(&A_old[kk*N + nn], &At[nn*K + kk], lda, ldb, 
+						transpose_mxn(&A_old[(size_t) kk*N + nn], &At[(size_t) nn*K + kk], lda, ldb, 
 							cake_min(nr, N - nn), cake_min(kr, K - kk));			
 					} else {
-						transpose_8x8(&A_old[kk*N + nn], &At[nn*K + kk], lda, ldb);
+						transpose_8x8(&A_old[(size_t) kk*N + nn], &At[(size_t) nn*K + kk], lda, ldb);
 					}
 				}
 			}
-- 
2.43.0


From 3f23080e11b6ef93f03e9fef9786bcbf5e6c1298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:06 +0000
Subject: [PATCH 21/21] fix: the result checkers and transpose overflowed int
 offsets on 2^31 and more elements

---
 src/util.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index 6f47b7f..43dd031 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -140,7 +140,7 @@ bool mat_equals(float* C, float* C_check, int M, int N) {
 
     int CORRECT = 1;
     int cnt = 0;
-    int ind1 = 0;
+    size_t ind1 = 0;
     float eps = 1e-3; // machine precision level
 
 	for(int m = 0; m < M; m++) {
@@ -172,7 +172,7 @@ bool mat_equals(float* C, float* C_check, int M, int N) {
 
 bool cake_sgemm_checker(float* A, float* B, float* C, int N, int M, int K) {
 
-	float* C_check = (float*) calloc(M * N , sizeof( float ));
+	float* C_check = (float*) calloc((size_t) M * N , sizeof( float ));
 
 	for(int k = 0; k < K; k++) {
 		#pragma omp parallel for
@@ -180,7 +180,7 @@ bool cake_sgemm_checker(float* A, float* B, float* C, int N, int M, int K) {
 			for(int n = 0; n < N; n++) {
 			// C_check[m*N + n] = 0.0;
 			// C_check[m*N + n] = C[m*N + n];
-				C_check[m*N + n] += A[m*K + k] * B[k*N + n];
+				C_check[(size_t) m*N + n] += A[(size_t) m*K + k] * B[(size_t) k*N + n];
 			}
 			// printf("%f ", C_check[m*N + n]);
 		}
@@ -206,20 +206,20 @@ bool cake_sgemm_checker(float* A, float* B, float* C, int N, int M, int K) {
 
 bool add_checker(float** C_arr, float* C, int M, int N, int p) {
 
-	float* C_check = (float*) calloc(M * N , sizeof( float ));
+	float* C_check = (float*) calloc((size_t) M * N , sizeof( float ));
 
 	for(int c = 0; c < p; c++) {
-		for(int i = 0; i < M*N; i++) {
+		for(size_t i = 0; i < (size_t) M*N; i++) {
 			C_check[i] +=  C_arr[c][i];
 		}
 	}
 
     int CORRECT = 1;
     int cnt = 0;
-    int ind1 = 0;
+    size_t ind1 = 0;
     float eps = 1e-3; // machine precision level
 
-    for(int i = 0; i < M*N; i++) {
+    for(size_t i = 0; i < (size_t) M*N; i++) {
         // if(C_check[m1*N + n1] != C[ind1]) {
         if(C_check[ind1] != C[ind1] && !(fabs(C_check[ind1] - C[ind1]) <= eps)) {
             cnt++;
@@ -341,7 +341,7 @@ void transpose(float* At, float* A, int M, int K) {
 
 	for(int k = 0; k < K; k++) {
 		for(int m = 0; m < M; m++) {
-			At[m + k*M] = A[m*K + k];
+			At[m + (size_t) k*M] = A[(size_t) m*K + k];
 		}
 	}
 }
-- 
2.43.0

