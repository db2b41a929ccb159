From 23ce294940f0863859f5adc4cf8ee4919ad3caf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:07 +0000
Subject: [PATCH 01/28] fix: operations with a neutral constant must not
 replace the operand's derivative rule

x+0, 0+x, x-0, x*1, 1*x, x/1 and hypot with 0 return the operand itself;
setting the chain procedure on that result overwrote the rule of the
operand's own node. hypot(0,x) also returned x instead of |x|.
---
 src/add.F90   | 4 ++--
 src/div.F90   | 2 +-
 src/hypot.F90 | 6 +++---
 src/mul.F90   | 4 ++--
 src/sub.F90   | 2 +-
 5 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/add.F90 b/src/add.F90
index 036db38..0bfcc1e 100644
--- a/src/add.F90
+++ b/src/add.F90
@@ -46,10 +46,10 @@ contains
     type(var) :: s
     if ( v2 .ne. 0.d0 ) then
        s = var(v1%val() + v2, [v1])
+       call s%set_chain(chain_add_vd)
     else
        s = v1
     end if
-    call s%set_chain(chain_add_vd)
   end function add_vd
 
   impure elemental function add_dv(v1, v2) result(s)
@@ -58,10 +58,10 @@ contains
     type(var) :: s
     if ( v1 .ne. 0.d0 ) then
        s = var(v1 + v2%val(), [v2])
+       call s%set_chain(chain_add_vd)
     else
        s = v2
     end if
-    call s%set_chain(chain_add_vd)
   end function add_dv
 
   impure elemental function pos(v) result(s)
diff --git a/src/div.F90 b/src/div.F90
index 8085ea0..2b2e180 100644
--- a/src/div.F90
+++ b/src/div.F90
@@ -47,10 +47,10 @@ contains
     type(var) :: s
     if ( d .ne. 1.d0 ) then
        s = var(v%val() / d, [v], [d])
+       call s%set_chain(chain_div_vd)
     else
        s = v
     end if
-    call s%set_chain(chain_div_vd)
   end function div_vd
 
   subroutine chain_div_dv(this)
diff --git a/src/hypot.F90 b/src/hypot.F90
index 84da526..e543101 100644
--- a/src/hypot.F90
+++ b/src/hypot.F90
@@ -32,10 +32,10 @@ contains
     type(var) :: s
     if ( v2 .ne. 0.d0 ) then
        s = var(hypot(v1%val(), v2), [v1])
+       call s%set_chain(chain_hypot)
     else
        s = abs(v1)
     end if
-    call s%set_chain(chain_hypot)
   end function hypot_vd
 
   impure elemental function hypot_dv(v1, v2) result(s)
@@ -44,10 +44,10 @@ contains
     type(var) :: s
     if ( v1 .ne. 0.d0 ) then
        s = var(hypot(v2%val(), v1), [v2])
+       call s%set_chain(chain_hypot)
     else
-       s = v2
+       s = abs(v2)
     end if
-    call s%set_chain(chain_hypot)
   end function hypot_dv
 
 end module fazang_hypot_v_mod
diff --git a/src/mul.F90 b/src/mul.F90
index 159f36f..5c38b92 100644
--- a/src/mul.F90
+++ b/src/mul.F90
@@ -46,10 +46,10 @@ contains
     type(var) :: s
     if ( d .ne. 1.d0 ) then
        s = var(v%val() * d, [v], [d])
+       call s%set_chain(chain_mul_vd)
     else
        s = v
     end if
-    call s%set_chain(chain_mul_vd)
   end function mul_vd
 
   impure elemental function mul_dv(d, v) result(s)
@@ -58,10 +58,10 @@ contains
     type(var) :: s
     if ( d .ne. 1.d0 ) then
        s = var(v%val() * d, [v], [d])
+       call s%set_chain(chain_mul_vd)
     else
        s = v
     end if
-    call s%set_chain(chain_mul_vd)
   end function mul_dv
 
 end module fazang_mul_mod
diff --git a/src/sub.F90 b/src/sub.F90
index b7e4add..678f00b 100644
--- a/src/sub.F90
+++ b/src/sub.F90
@@ -45,10 +45,10 @@ contains
     type(var) :: s
     if ( v2 .ne. 0.d0 ) then
        s = var(v1%val() - v2, [v1])
+       call s%set_chain(chain_sub_vd)
     else
        s = v1
     end if
-    call s%set_chain(chain_sub_vd)
   end function sub_vd
 
   subroutine chain_sub_dv(this)
-- 
2.43.0


From 0ba4ceee25f526c75c53501bcedfc72280249104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:07 +0000
Subject: [PATCH 02/28] fix: inv_square returned 1 because of operator
 precedence

---
 src/inv_square.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/inv_square.F90 b/src/inv_square.F90
index 98bb5c4..268111b 100644
--- a/src/inv_square.F90
+++ b/src/inv_square.F90
@@ -22,7 +22,7 @@ contains
   impure elemental function inv_square(v) result(s)
     type(var), intent(in) :: v
     type(var) :: s
-    s = var(1.d0 / v%val() * v%val(), [v])
+    s = var(1.d0 / (v%val() * v%val()), [v])
     call s%set_chain(chain_isq)
   end function inv_square
 
-- 
2.43.0


From c783623b54ecd74bef9be4bcd708fc1c6ed8c700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:07 +0000
Subject: [PATCH 03/28] fix: comparisons of a real with a var had their
 operands swapped

---
 src/relational.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/relational.F90 b/src/relational.F90
index 4a23c58..5908c06 100644
--- a/src/relational.F90
+++ b/src/relational.F90
@@ -24,7 +24,7 @@ contains
 
 #define FUNC_REL_OP_VV(S, F) elemental function F (a, b) result(r); type(var), intent(in) :: a, b; logical :: r; r = a%val() S b%val(); end function F
 #define FUNC_REL_OP_VD(S, F) elemental function F (a, b) result(r); type(var), intent(in) :: a; real(rk), intent(in) :: b; logical :: r; r = a%val() S b; end function F
-#define FUNC_REL_OP_DV(S, F) elemental function F (a, b) result(r); real(rk), intent(in) :: a; type(var), intent(in) :: b; logical :: r; r = b%val() S a; end function F
+#define FUNC_REL_OP_DV(S, F) elemental function F (a, b) result(r); real(rk), intent(in) :: a; type(var), intent(in) :: b; logical :: r; r = a S b%val(); end function F
 
   FUNC_REL_OP_VV(==, var_eq)
   FUNC_REL_OP_VD(==, vd_eq)
-- 
2.43.0


From 2660c995e3405c6b903289b1bcff41d31f726afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:43 +0000
Subject: [PATCH 04/28] fix: end_nested wrote one element past the used tape

The element at head is not part of the nested records: it is out of bounds
when the tape is exactly full or not allocated yet.
---
 src/nested.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nested.F90 b/src/nested.F90
index 5f50ba8..956ce4f 100644
--- a/src/nested.F90
+++ b/src/nested.F90
@@ -32,7 +32,7 @@ contains
   subroutine end_nested()
     integer :: i
     if ( nest_level > 0 ) then
-       do i = callstack % stack % head, nested_tape_head(nest_level), -1
+       do i = callstack % stack % head - 1, nested_tape_head(nest_level), -1
           callstack % stack % storage(i) = 0
        end do
        callstack % stack % head = nested_tape_head(nest_level)
-- 
2.43.0


From 7b03ffc5ef3b65fed029c1cb90690c1fabe07cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:43 +0000
Subject: [PATCH 05/28] fix: more than 10 nested environments wrote past the
 end of the nesting stack

---
 src/nested.F90 | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/nested.F90 b/src/nested.F90
index 956ce4f..8407d0f 100644
--- a/src/nested.F90
+++ b/src/nested.F90
@@ -8,9 +8,9 @@ module fazang_nested_tape_mod
   public :: set_zero_nested_adj, begin_nested, end_nested
   public :: curr_nested_vari_head
   
-  integer, parameter :: max_nested_stack = 10
-  integer :: nested_tape_head(max_nested_stack) = 0
-  integer :: nested_vari_head(max_nested_stack) = 0
+  integer, parameter :: init_nested_stack = 10
+  integer, allocatable :: nested_tape_head(:)
+  integer, allocatable :: nested_vari_head(:)
   integer :: nest_level = 0
 
 contains
@@ -24,6 +24,14 @@ contains
   ! we can't use OOP like FINAL because gfortran has implementation
   ! gap of standard 2018
   subroutine begin_nested()
+    if ( .not. allocated(nested_vari_head) ) then
+       allocate(nested_vari_head(init_nested_stack), source=0)
+       allocate(nested_tape_head(init_nested_stack), source=0)
+    end if
+    if ( nest_level == size(nested_vari_head) ) then
+       nested_vari_head = [nested_vari_head, 0 * nested_vari_head]
+       nested_tape_head = [nested_tape_head, 0 * nested_tape_head]
+    end if
     nest_level = nest_level + 1
     nested_vari_head(nest_level) = callstack % head
     nested_tape_head(nest_level) = callstack % stack % head
-- 
2.43.0


From 72a54d0457825a767d0d5b8beabf22e9ddb1c6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:43 +0000
Subject: [PATCH 06/28] fix: nested reset and nested gradient outside any
 nested environment

Both ran down to element 0 of the callstack, which does not exist.
---
 src/nested.F90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nested.F90 b/src/nested.F90
index 8407d0f..23329fa 100644
--- a/src/nested.F90
+++ b/src/nested.F90
@@ -16,7 +16,7 @@ module fazang_nested_tape_mod
 contains
   subroutine set_zero_nested_adj ()
     integer i
-    do i = callstack % head - 1, nested_vari_head(nest_level), -1
+    do i = callstack % head - 1, curr_nested_vari_head(), -1
        call callstack % stack % set_adj(callstack%varis(i)%i, 0.0d0)
     end do
   end subroutine set_zero_nested_adj
@@ -52,7 +52,7 @@ contains
   end subroutine end_nested
 
   integer(ik) function curr_nested_vari_head()
-    curr_nested_vari_head = 0
+    curr_nested_vari_head = 1
     if (nest_level > 0) then
        curr_nested_vari_head = nested_vari_head(nest_level)
     end if
-- 
2.43.0


From 962d9169e7f34af1b0f6dc8555e2a1318e772d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:43 +0000
Subject: [PATCH 07/28] fix: a variable created in a reused slot kept the old
 derivative rule

After end_nested the slots of the nested variables are reused, but a new
leaf variable did not reset the chain procedure left in its slot.
---
 src/vari.F90 | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vari.F90 b/src/vari.F90
index 626f696..59ee4a6 100644
--- a/src/vari.F90
+++ b/src/vari.F90
@@ -120,6 +120,7 @@ contains
     call callstack % alloc_vari_stack()
     callstack%varis(callstack%head)%i = callstack % stack % push(d)
     vp = callstack%head
+    callstack%varis(callstack%head)%chain => chain_dummy
     call incr1(callstack%head)
   end function new_vari_val
 
@@ -136,6 +137,7 @@ contains
     call callstack % alloc_vari_stack()
     callstack%varis(callstack%head)%i = callstack % stack % push(d, op)
     vp = callstack%head
+    callstack%varis(callstack%head)%chain => chain_dummy
     call incr1(callstack%head)
   end function new_vari_val_op
 
@@ -146,6 +148,7 @@ contains
     call callstack % alloc_vari_stack()
     callstack%varis(callstack%head)%i = callstack % stack % push(d, dop)
     vp = callstack%head
+    callstack%varis(callstack%head)%chain => chain_dummy
     call incr1(callstack%head)
   end function new_vari_val_dop
 
@@ -158,6 +161,7 @@ contains
     callstack%varis(callstack%head)%i = callstack % stack % push(d,&
          & op, dop)
     vp = callstack%head
+    callstack%varis(callstack%head)%chain => chain_dummy
     call incr1(callstack%head)
   end function new_vari_val_op_dop
 
-- 
2.43.0


From a327b28eb3197a29b5db0e5b0daff6d11676dced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:43 +0000
Subject: [PATCH 08/28] fix: gradient() and jacobian() propagated the caller's
 adjoints

The sweep must stop at the nested environment: running it over the whole
callstack pushed the adjoints of outer variables to their operands again.
---
 src/grad.F90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grad.F90 b/src/grad.F90
index 8a829b2..6df8ad5 100644
--- a/src/grad.F90
+++ b/src/grad.F90
@@ -38,7 +38,7 @@ contains
     x_var = var(x)
     f_var = f(x_var)
     f_df(1) = f_var%val()
-    call f_var%grad()
+    call f_var%grad_nested()
     f_df(2:(1+size(x))) = x_var%adj()
 
     call end_nested()
@@ -59,7 +59,7 @@ contains
 
     do i = 1, n
        call set_zero_nested_adj()
-       call f_var(i)%grad()
+       call f_var(i)%grad_nested()
        f_df(i, 2:(1 + size(x))) = x_var%adj()
     end do
 
-- 
2.43.0


From 0d33187f2abab65b0aa5230909cf4e7650ad3b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:43 +0000
Subject: [PATCH 09/28] fix: unary minus was not elemental, so it did not
 compile for arrays

---
 src/sub.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sub.F90 b/src/sub.F90
index 678f00b..96b1ff6 100644
--- a/src/sub.F90
+++ b/src/sub.F90
@@ -66,7 +66,7 @@ contains
     call s%set_chain(chain_sub_dv)
   end function sub_dv
 
-  function neg(v) result(s)
+  impure elemental function neg(v) result(s)
     type(var), intent(in) :: v
     type(var) :: s
     s = var(-v%val(), [v])
-- 
2.43.0


From c1939903d902e4b45cc7bad099a88b83dd865c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:43 +0000
Subject: [PATCH 10/28] fix: abs of a var was not exported by module fazang

---
 src/fazang.F90 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fazang.F90 b/src/fazang.F90
index 79b4222..5532fd6 100644
--- a/src/fazang.F90
+++ b/src/fazang.F90
@@ -14,6 +14,7 @@ module fazang
   use fazang_grad_mod
 
   ! op 1
+  use fazang_abs_mod
   use fazang_sin_mod
   use fazang_cos_mod
   use fazang_tan_mod
-- 
2.43.0


From 1017566fd42a4b42952a6883b9cdc3f16522def1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:43 +0000
Subject: [PATCH 11/28] fix: parameter sensitivities only worked for exactly
 three parameters

---
 src/cvodes_model.F90 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cvodes_model.F90 b/src/cvodes_model.F90
index 87f1ffe..05721c3 100755
--- a/src/cvodes_model.F90
+++ b/src/cvodes_model.F90
@@ -175,7 +175,7 @@ contains
     type(N_Vector), pointer :: yiSdot
     real(c_double), pointer :: yiSdotvec(:)
     logical :: par_is_var
-    type(var) :: pvar(3)
+    type(var), allocatable :: pvar(:)
     integer m               ! # of var params
 
     m = merge(ode % ns - n, ode % ns, ode % ys)
@@ -186,6 +186,7 @@ contains
     yvar = var(y)
     fvar = var([(0.d0, i = 1, size(y))])
     if ( par_is_var ) then
+       allocate(pvar(m))
        pvar = var(ode % pval)
        call ode % f_pvar(t, yvar, fvar, pvar)
     else
-- 
2.43.0


From 2210bb1a7137b13c63e3884cb329fff29df7390f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:43 +0000
Subject: [PATCH 12/28] fix: tape adj() returned the value, record_len()
 misread records with operands

---
 src/tape.F90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tape.F90 b/src/tape.F90
index 5678336..da2a39c 100644
--- a/src/tape.F90
+++ b/src/tape.F90
@@ -190,7 +190,7 @@ contains
   pure function adj_curr (this) result(d)
     real(rk) :: d
     class(tape), target, intent(in) :: this
-    d = this%val_at(this%head)
+    d = this%adj_at(this%head)
   end function adj_curr
 
   ! op: operands index
@@ -349,7 +349,7 @@ contains
     class(tape), target, intent(in) :: this
     integer(ik), intent(in) :: i
     integer(ik) :: j
-    j = min_rec_size + this%storage(i + 4) + 2 * this%storage(i + 5)
+    j = min_rec_size + this%storage(i + 4) + 2 * this%n_data_operand(i)
   end function record_len
 
   pure function n_data_operand(this, i) result(d)
-- 
2.43.0


From 8b4808b7a7ced4a45ede974d72566ee9b702d862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:43 +0000
Subject: [PATCH 13/28] fix: log_sum_exp of all -infinity returned NaN instead
 of -infinity

---
 src/log_sum_exp.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log_sum_exp.F90 b/src/log_sum_exp.F90
index 891ffe7..f3ccc9c 100644
--- a/src/log_sum_exp.F90
+++ b/src/log_sum_exp.F90
@@ -30,7 +30,7 @@ contains
     real(rk), intent(in) :: d(:)
     real(rk) :: s, max_d
     max_d = maxval(d)
-    if ( is_inf(max_d) ) then
+    if ( is_inf(max_d) .or. is_neg_inf(max_d) ) then
        s = max_d
     else
        s = max_d + log(sum(exp(d - max_d)))
-- 
2.43.0


From 32f4d63e51a6b07219e702421faf5e423842b50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:14 +0000
Subject: [PATCH 14/28] fix: ODE solves freed the solver while still using it
 with newer gfortran

The finalizer ran on the function result of new_cvodes_service, releasing
what the assigned object points to (double free with gfortran 13).
---
 src/cvodes.F90 | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/cvodes.F90 b/src/cvodes.F90
index f645264..e81e10d 100644
--- a/src/cvodes.F90
+++ b/src/cvodes.F90
@@ -37,10 +37,6 @@ module fazang_cvodes_mod
      final :: free_cvodes_service
   end type cvodes_service
 
-  interface cvodes_service
-     module procedure :: new_cvodes_service
-  end interface cvodes_service
-
   interface cvodes_sol
      module procedure :: cvodes_sol_data
      module procedure :: cvodes_sol_y0_sens
@@ -48,9 +44,11 @@ module fazang_cvodes_mod
   end interface cvodes_sol
 
 contains
-  function new_cvodes_service(t0, y, ode, cv_method) result(serv)
+  ! not a function: assigning a function result of a type with a
+  ! finalizer finalizes the result and thus frees the resources in use
+  subroutine init_cvodes_service(serv, t0, y, ode, cv_method)
     implicit none
-    type(cvodes_service) :: serv
+    type(cvodes_service), intent(inout) :: serv
     integer :: ierr, is
     integer, intent(in) :: cv_method
     real(c_double) :: t0
@@ -109,7 +107,7 @@ contains
             c_funloc(ode % cvs_sens), serv % yS)
     end if
 
-  end function new_cvodes_service
+  end subroutine init_cvodes_service
 
   subroutine free_cvodes_service(this)
     implicit none
@@ -141,7 +139,7 @@ contains
     integer :: ierr, outstep, nout
 
     ode = cvs_rhs(rhs)
-    serv = new_cvodes_service(t, y, ode, cvs_options % cv_method)
+    call init_cvodes_service(serv, t, y, ode, cvs_options % cv_method)
     call cvs_options % set(serv % mem)
 
     nout = size(ts)
@@ -180,7 +178,7 @@ contains
 
     ode = cvs_rhs(.true., size(y), rhs, rhs_yvar)
     yval = y%val()
-    serv = new_cvodes_service(t, yval, ode, cvs_options % cv_method)
+    call init_cvodes_service(serv, t, yval, ode, cvs_options % cv_method)
 
     ierr = FCVodeSensEEtolerances(serv % mem)       
 
@@ -234,7 +232,7 @@ contains
 
     pval = param % val()
     ode = cvs_rhs(.false., size(param), pval, rhs, rhs_pvar)
-    serv = new_cvodes_service(t, y, ode, cvs_options % cv_method)
+    call init_cvodes_service(serv, t, y, ode, cvs_options % cv_method)
 
     ierr = FCVodeSensEEtolerances(serv % mem)
 
-- 
2.43.0


From b03b764946318504d10d7d8d1cc7d5c00e2892a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:59 +0000
Subject: [PATCH 15/28] fix: ODE solves handed CVODES the address of a
 temporary

For a strided initial state CVODES got a packed copy that no longer exists
(nor is read back) after set-up; work on a contiguous local copy instead.
---
 src/cvodes.F90 | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/cvodes.F90 b/src/cvodes.F90
index e81e10d..8f173b2 100644
--- a/src/cvodes.F90
+++ b/src/cvodes.F90
@@ -52,7 +52,7 @@ contains
     integer :: ierr, is
     integer, intent(in) :: cv_method
     real(c_double) :: t0
-    real(c_double), intent(inout) :: y(:)
+    real(c_double), target, contiguous, intent(inout) :: y(:)
     type(cvs_rhs), target, intent(in) :: ode
     type(N_Vector), pointer :: yiS
     real(c_double), pointer :: yiSvec(:)
@@ -134,12 +134,14 @@ contains
     real(c_double), intent(inout) :: y(:)
     real(c_double) :: yt(size(y), size(ts))
     real(c_double) :: tcur(1)
+    real(c_double), target :: ycur(size(y)) ! contiguous, seen by CVODES
     type(cvs_rhs), target :: ode
     type(cvodes_service) :: serv
     integer :: ierr, outstep, nout
 
     ode = cvs_rhs(rhs)
-    call init_cvodes_service(serv, t, y, ode, cvs_options % cv_method)
+    ycur = y
+    call init_cvodes_service(serv, t, ycur, ode, cvs_options % cv_method)
     call cvs_options % set(serv % mem)
 
     nout = size(ts)
@@ -150,8 +152,9 @@ contains
           print *, 'Error in FCVODE, ierr = ', ierr, '; halting'
           stop 1
        endif
-       yt(:, outstep) = y
+       yt(:, outstep) = ycur
     enddo
+    y = ycur
   end function cvodes_sol_data
 
   function cvodes_sol_y0_sens(t, y, ts, rhs, rhs_yvar, cvs_options) result(yt)
@@ -170,7 +173,8 @@ contains
     type(cvodes_service) :: serv
     integer :: ierr, outstep, nout, is
     integer(c_long) :: i
-    real(rk) :: yval(size(y)), g(size(y))
+    real(rk), target :: yval(size(y))
+    real(rk) :: g(size(y))
     type(N_Vector), pointer :: yiS
     real(c_double), pointer :: yiSvec(:)
 
@@ -224,7 +228,9 @@ contains
     type(cvodes_service) :: serv
     integer :: ierr, outstep, nout, is
     integer(c_long) :: i
-    real(rk) :: g(size(param)), pval(size(param))
+    real(rk) :: g(size(param))
+    real(rk), target :: pval(size(param))
+    real(rk), target :: ycur(size(y)) ! contiguous, seen by CVODES
     type(N_Vector), pointer :: yiS
     real(c_double), pointer :: yiSvec(:)
 
@@ -232,7 +238,8 @@ contains
 
     pval = param % val()
     ode = cvs_rhs(.false., size(param), pval, rhs, rhs_pvar)
-    call init_cvodes_service(serv, t, y, ode, cvs_options % cv_method)
+    ycur = y
+    call init_cvodes_service(serv, t, ycur, ode, cvs_options % cv_method)
 
     ierr = FCVodeSensEEtolerances(serv % mem)
 
@@ -258,6 +265,7 @@ contains
           yt(i, outstep) = var_with_partials(yiSvec(i), param, g)
        enddo
     enddo
+    y = ycur
   end function cvodes_sol_par_sens
 
 end module fazang_cvodes_mod
-- 
2.43.0


From 886914b2781dc13f723a71de19cbcf3242473c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:24 +0000
Subject: [PATCH 16/28] fix: return flags of most CVODES set-up calls were
 ignored

---
 src/cvodes.F90         | 33 +++++++++++++++++++++++++++------
 src/cvodes_options.F90 | 12 ++++++++++++
 2 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/src/cvodes.F90 b/src/cvodes.F90
index 8f173b2..51a5157 100644
--- a/src/cvodes.F90
+++ b/src/cvodes.F90
@@ -58,6 +58,7 @@ contains
     real(c_double), pointer :: yiSvec(:)
 
     ierr = FSUNContext_Create(c_null_ptr, serv%ctx)
+    call check_cvodes(ierr, 'FSUNContext_Create')
 
     ! create SUNDIALS N_Vector
     serv % neq = size(y)
@@ -69,9 +70,17 @@ contains
 
     serv % sunmat_A => FSUNDenseMatrix(serv % neq, &
          serv % neq, serv % ctx)
+    if (.not. associated(serv % sunmat_A)) then
+       print *, 'ERROR: sunmat = NULL'
+       stop 1
+    end if
 
     serv % sunlinsol_LS => FSUNLinSol_Dense(serv % sunvec_y,&
          serv % sunmat_A, serv % ctx)
+    if (.not. associated(serv % sunlinsol_LS)) then
+       print *, 'ERROR: sunlinsol = NULL'
+       stop 1
+    end if
 
     ! create CVode memory
     serv % mem = FCVodeCreate(cv_method, serv % ctx)
@@ -87,14 +96,20 @@ contains
     endif
 
     ierr = FCVodeSetUserData(serv % mem, c_loc(ode))
+    call check_cvodes(ierr, 'FCVodeSetUserData')
 
     ierr = FCVodeSetLinearSolver(serv % mem, serv % sunlinsol_LS, &
          serv % sunmat_A)
+    call check_cvodes(ierr, 'FCVodeSetLinearSolver')
 
     ! need sensitivity ?
     if ( ode % ns > 0 ) then
        serv % sens = ode % ns
        serv % yS = FN_VCloneVectorArray(ode % ns, serv % sunvec_y) 
+       if (.not. c_associated(serv % yS)) then
+          print *, 'ERROR: sensitivity vectors = NULL'
+          stop 1
+       end if
        do is = 0, ode % ns - 1
           yiS => FN_VGetVecAtIndexVectorArray(serv % yS, is)
           yiSvec => FN_VGetArrayPointer(yiS)
@@ -105,6 +120,10 @@ contains
        end do
        ierr = FCVodeSensInit(serv % mem, ode % ns, CV_STAGGERED, &
             c_funloc(ode % cvs_sens), serv % yS)
+       call check_cvodes(ierr, 'FCVodeSensInit')
+
+       ierr = FCVodeSensEEtolerances(serv % mem)
+       call check_cvodes(ierr, 'FCVodeSensEEtolerances')
     end if
 
   end subroutine init_cvodes_service
@@ -184,8 +203,6 @@ contains
     yval = y%val()
     call init_cvodes_service(serv, t, yval, ode, cvs_options % cv_method)
 
-    ierr = FCVodeSensEEtolerances(serv % mem)       
-
     call cvs_options % set(serv % mem)
 
     nout = size(ts)
@@ -196,7 +213,10 @@ contains
           print *, 'Error in FCVODE, ierr = ', ierr, '; halting'
           stop 1
        endif
-       ierr = FCVodeGetSens(serv % mem, tcur, serv % yS)
+       if ( serv % sens > 0 ) then
+          ierr = FCVodeGetSens(serv % mem, tcur, serv % yS)
+          call check_cvodes(ierr, 'FCVodeGetSens')
+       end if
        do i = 1, serv % neq
           g = 0.d0
           do is = 0, ode % ns - 1
@@ -241,8 +261,6 @@ contains
     ycur = y
     call init_cvodes_service(serv, t, ycur, ode, cvs_options % cv_method)
 
-    ierr = FCVodeSensEEtolerances(serv % mem)
-
     call cvs_options % set(serv % mem)
 
     nout = size(ts)
@@ -253,7 +271,10 @@ contains
           print *, 'Error in FCVODE, ierr = ', ierr, '; halting'
           stop 1
        endif
-       ierr = FCVodeGetSens(serv % mem, tcur, serv % yS)
+       if ( serv % sens > 0 ) then
+          ierr = FCVodeGetSens(serv % mem, tcur, serv % yS)
+          call check_cvodes(ierr, 'FCVodeGetSens')
+       end if
        do i = 1, serv % neq
           g = 0.d0
           do is = 0, ode % ns - 1
diff --git a/src/cvodes_options.F90 b/src/cvodes_options.F90
index 1dc9049..b1c35d7 100644
--- a/src/cvodes_options.F90
+++ b/src/cvodes_options.F90
@@ -42,7 +42,19 @@ contains
     type(c_ptr), intent(inout) :: mem ! CVODES memory
     integer :: ierr
     ierr = FCVodeSStolerances(mem, this % rtol, this % atol)
+    call check_cvodes(ierr, 'FCVodeSStolerances')
     ierr = FCVodeSetMaxNumSteps(mem, this % max_nstep)
+    call check_cvodes(ierr, 'FCVodeSetMaxNumSteps')
   end subroutine set
 
+  ! a failed CVODES call must not go unnoticed
+  subroutine check_cvodes(ierr, name)
+    integer(c_int), intent(in) :: ierr
+    character(*), intent(in) :: name
+    if (ierr /= 0) then
+       print *, 'Error in ', name, ', ierr = ', ierr, '; halting'
+       stop 1
+    endif
+  end subroutine check_cvodes
+
 end module fazang_cvodes_options_mod
-- 
2.43.0


From 496f2589e86bfe97feec707d7816ee8a8c853f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:55 +0000
Subject: [PATCH 17/28] fix: ODE sensitivities were excluded from the error
 control

err_con was declared but never passed on, so the step size ignored the
sensitivities: with y0 = 0 they were wrong by any amount.
---
 src/cvodes.F90 | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cvodes.F90 b/src/cvodes.F90
index 51a5157..dc4b6f6 100644
--- a/src/cvodes.F90
+++ b/src/cvodes.F90
@@ -56,6 +56,7 @@ contains
     type(cvs_rhs), target, intent(in) :: ode
     type(N_Vector), pointer :: yiS
     real(c_double), pointer :: yiSvec(:)
+    integer(c_int), parameter :: err_con = 1
 
     ierr = FSUNContext_Create(c_null_ptr, serv%ctx)
     call check_cvodes(ierr, 'FSUNContext_Create')
@@ -124,6 +125,10 @@ contains
 
        ierr = FCVodeSensEEtolerances(serv % mem)
        call check_cvodes(ierr, 'FCVodeSensEEtolerances')
+
+       ! sensitivities are part of the solution: control their error too
+       ierr = FCVodeSetSensErrCon(serv % mem, err_con)
+       call check_cvodes(ierr, 'FCVodeSetSensErrCon')
     end if
 
   end subroutine init_cvodes_service
@@ -197,8 +202,6 @@ contains
     type(N_Vector), pointer :: yiS
     real(c_double), pointer :: yiSvec(:)
 
-    integer(c_int), parameter :: err_con = 1
-
     ode = cvs_rhs(.true., size(y), rhs, rhs_yvar)
     yval = y%val()
     call init_cvodes_service(serv, t, yval, ode, cvs_options % cv_method)
@@ -254,8 +257,6 @@ contains
     type(N_Vector), pointer :: yiS
     real(c_double), pointer :: yiSvec(:)
 
-    integer(c_int), parameter :: err_con = 1
-
     pval = param % val()
     ode = cvs_rhs(.false., size(param), pval, rhs, rhs_pvar)
     ycur = y
-- 
2.43.0


From 53ec5fa1911d321d77c4ad26a3bb07c9f696bb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:08 +0000
Subject: [PATCH 18/28] fix: digamma used the machine constants of VAX double
 precision

The derivative of log_gamma was cut off at 1.7e38 for |x| < 5.89e-39.
---
 src/digamma.F90 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/digamma.F90 b/src/digamma.F90
index 922cab7..19445b1 100644
--- a/src/digamma.F90
+++ b/src/digamma.F90
@@ -136,9 +136,9 @@ module fazang_digamma_mod
   !  Zero of psi(x)
   real(real64), parameter :: X01 =187.0D0, X01D = 128.0D0, X02 = 6.9464496836234126266D-04
 
-  !  Machine-dependent constants
-  real(real64), parameter :: XINF=1.70D+38, XMIN1=5.89D-39, XMAX1=3.60D+16
-  real(real64), parameter :: XSMALL=2.05D-09, XLARGE=2.04D+15
+  !  Machine-dependent constants, IEEE (D.P.)
+  real(real64), parameter :: XINF=1.79D+308, XMIN1=2.23D-308, XMAX1=4.50D+15
+  real(real64), parameter :: XSMALL=5.80D-09, XLARGE=2.71D+14
 
 contains
   elemental function digamma(xx) result(psi)
-- 
2.43.0


From d8964296f8f8285a012967a4152acae3678802e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:08 +0000
Subject: [PATCH 19/28] fix: derivative of acosh and atanh at NaN was 1

A NaN operand was returned as is, so the result had the operand's
derivative rule instead of its own.
---
 src/acosh.F90 | 4 +---
 src/atanh.F90 | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/acosh.F90 b/src/acosh.F90
index 406686d..ba735f8 100644
--- a/src/acosh.F90
+++ b/src/acosh.F90
@@ -27,9 +27,7 @@ contains
     implicit none
     type(var), intent(in) :: v
     type(var) :: s
-    if ( is_nan(v) ) then
-       s = v
-    elseif ( v <= 1.d0 ) then
+    if ( v <= 1.d0 ) then
        error stop
     else
        s = var(acosh(v%val()), [v])
diff --git a/src/atanh.F90 b/src/atanh.F90
index 203041f..6b2875c 100644
--- a/src/atanh.F90
+++ b/src/atanh.F90
@@ -25,9 +25,7 @@ contains
   impure elemental function atanh_v(v) result(s)
     type(var), intent(in) :: v
     type(var) :: s
-    if ( is_nan(v) ) then
-       s = v
-    elseif ( v <= -1.d0 .or. v >= 1.d0 ) then
+    if ( v <= -1.d0 .or. v >= 1.d0 ) then
        error stop
     else
        s = var(atanh(v%val()), [v])
-- 
2.43.0


From 3ab45efd1d7753591c4612fb4d049229aff1f243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:51 +0000
Subject: [PATCH 20/28] fix: the right-hand side of an ODE was given arrays of
 size 1

---
 src/cvodes_model.F90 | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/cvodes_model.F90 b/src/cvodes_model.F90
index 05721c3..434438c 100755
--- a/src/cvodes_model.F90
+++ b/src/cvodes_model.F90
@@ -109,8 +109,10 @@ contains
     ! pointers to data in SUNDIALS vectors
     real(c_double), pointer :: yvec(:)
     real(c_double), pointer :: fvec(:)
+    real(c_double), pointer :: y(:), f(:)
 
     type(cvs_rhs), pointer :: ode
+    integer(c_long) :: n
 
     ierr = -1
     call c_f_pointer(user_data, ode)
@@ -119,8 +121,14 @@ contains
     yvec => FN_VGetArrayPointer(sunvec_y)
     fvec => FN_VGetArrayPointer(sunvec_f)
 
+    ! SUNDIALS returns pointers of size 1, but the user's function
+    ! relies on size(y) being the number of equations
+    n = FN_VGetLength(sunvec_y)
+    call c_f_pointer(c_loc(yvec(1)), y, [n])
+    call c_f_pointer(c_loc(fvec(1)), f, [n])
+
     ! fill RHS vector
-    call ode % f(tn, yvec, fvec)
+    call ode % f(tn, y, f)
 
     ! return success
     ierr = 0
-- 
2.43.0


From d193e82a4688171d9f7993a8878ba45f80f61d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:25 +0000
Subject: [PATCH 21/28] fix: every ODE solve leaked a SUNDIALS profiler

The profiling branch of FSUNContext_Create is guarded by #ifdef, but .f90
files are not preprocessed: it was always compiled, although the C part of
SUNDIALS is configured without profiling and ignores the profiler. The
profiler leaked with each context, and its status replaced that of the
context's creation.
---
 .../src/sundials/fmod/fsundials_context_mod.f90        | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/lib/sundials-6.1.1/src/sundials/fmod/fsundials_context_mod.f90 b/lib/sundials-6.1.1/src/sundials/fmod/fsundials_context_mod.f90
index b329e61..32f92b9 100644
--- a/lib/sundials-6.1.1/src/sundials/fmod/fsundials_context_mod.f90
+++ b/lib/sundials-6.1.1/src/sundials/fmod/fsundials_context_mod.f90
@@ -127,26 +127,16 @@ end function
 function FSUNContext_Create(comm, ctx) &
 result(swig_result)
 use, intrinsic :: ISO_C_BINDING
-#ifdef SUNDIALS_BUILD_WITH_PROFILING
-use fsundials_profiler_mod, only : FSUNProfiler_Create
-#endif
 integer(C_INT) :: swig_result
 type(C_PTR) :: comm
 type(C_PTR), target, intent(inout) :: ctx
 integer(C_INT) :: fresult
 type(C_PTR) :: farg1
 type(C_PTR) :: farg2
-#ifdef SUNDIALS_BUILD_WITH_PROFILING
-type(C_PTR) :: profiler
-#endif
 
 farg1 = comm
 farg2 = c_loc(ctx)
 fresult = swigc_FSUNContext_Create(c_null_ptr, farg2)
-#ifdef SUNDIALS_BUILD_WITH_PROFILING
-fresult = FSUNProfiler_Create(farg1, "FSUNContext Default", profiler)
-fresult = swigc_FSUNContext_SetProfiler(ctx, profiler)
-#endif
 swig_result = fresult
 end function
 
-- 
2.43.0


From 59009a29445f1babc8fff364c3d2746e1e4dc775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:23 +0000
Subject: [PATCH 22/28] fix: expressions that do not contribute could turn
 every derivative into NaN

The sweep applied the chain rule to every variable on the tape, also to those
the dependent does not use: 0 times an infinite or undefined partial
derivative (sqrt(x) at 0, log(-1), a variable reassigned out of the domain of
an earlier operation) is NaN and was added to the operand's adjoint.
---
 src/var.F90 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/var.F90 b/src/var.F90
index a0bc7dd..e3192aa 100644
--- a/src/var.F90
+++ b/src/var.F90
@@ -171,6 +171,7 @@ contains
     integer i
     call callstack % varis (this%vi) % init_dependent()
     do i = callstack%head - 1, 1, -1
+       if ( callstack%varis(i)%adj() == 0.d0 ) cycle
        call callstack%varis(i)%chain()
     end do
   end subroutine grad
@@ -182,6 +183,7 @@ contains
     integer i
     call callstack % varis (this%vi) % init_dependent()
     do i = callstack%head - 1, curr_nested_vari_head(), -1
+       if ( callstack%varis(i)%adj() == 0.d0 ) cycle
        call callstack%varis(i)%chain()
     end do
   end subroutine grad_nested
-- 
2.43.0


From 58eb9a93aecca28762df78296654754dda47f7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:34 +0000
Subject: [PATCH 23/28] fix: the assertion helpers accepted NaN

Comparisons with NaN are false, so expect_near, expect_float_eq and
expect_dbl_eq passed whenever an argument was NaN.
---
 src/test.F90 | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/test.F90 b/src/test.F90
index ef953df..9d3afa1 100644
--- a/src/test.F90
+++ b/src/test.F90
@@ -24,7 +24,7 @@ contains
     real(REAL64), intent(in) :: a, b, tol
     character (*) :: file
     integer(int32) :: line
-    if ( abs(a - b) >= tol ) then
+    if ( abs(a - b) >= tol .or. a /= a .or. b /= b .or. tol /= tol ) then
        write(*, *) file, "   line:", line
        write(*, *)
        write(*, *) "|", a, "-", b, "| =", abs(a-b), " >", tol
@@ -36,7 +36,7 @@ contains
     real(REAL64), intent(in) :: a, b
     character (*) :: file
     integer(int32) :: line
-    if ( abs(a - b) >= 4.d0 * ulp_f ) then
+    if ( abs(a - b) >= 4.d0 * ulp_f .or. a /= a .or. b /= b ) then
        write(*, *) file, "   line:", line
        write(*, *)
        write(*, *) "|", a, "-", b, "| >", 4.d0 * ulp_f
@@ -49,7 +49,7 @@ contains
     character (*) :: file
     integer(int32) :: line, i
     do i = 1, size(a)
-       if ( abs(a(i) - b(i)) >= 4.d0 * ulp_f ) then
+       if ( abs(a(i) - b(i)) >= 4.d0 * ulp_f .or. a(i) /= a(i) .or. b(i) /= b(i) ) then
           write(*, *) file, "   line:", line, "   i=", i
           write(*, *)
           write(*, *) "|", a(i), "-", b(i), "| >", 4.d0 * ulp_f
@@ -64,7 +64,7 @@ contains
     integer(int32) :: line, i, j
     do i = 1, size(a, 2)
        do j = 1, size(a, 1)
-          if ( abs(a(j, i) - b(j, i)) >= 4.d0 * ulp_f ) then
+          if ( abs(a(j, i) - b(j, i)) >= 4.d0 * ulp_f .or. a(j, i) /= a(j, i) .or. b(j, i) /= b(j, i) ) then
              write(*, *) file, "   line:", line, "   row=", j, " col=", i
              write(*, *)
              write(*, *) "|", a(j, i), "-", b(j, i), "| >", 4.d0 * ulp_f
@@ -101,7 +101,7 @@ contains
     real(REAL64), intent(in) :: a, b
     character (*) :: file
     integer(int32) :: line
-    if ( abs(a - b) >= 4.d0 * ulp_d ) then
+    if ( abs(a - b) >= 4.d0 * ulp_d .or. a /= a .or. b /= b ) then
        write(*, *) file, "   line:", line
        write(*, *)
        write(*, *) "|", a, "-", b, "| >", 4.d0 * ulp_d
@@ -114,7 +114,7 @@ contains
     character (*) :: file
     integer(int32) :: line, i
     do i = 1, size(a)
-       if ( abs(a(i) - b(i)) >= 4.d0 * ulp_d ) then
+       if ( abs(a(i) - b(i)) >= 4.d0 * ulp_d .or. a(i) /= a(i) .or. b(i) /= b(i) ) then
           write(*, *) file, "   line:", line, "   i=", i
           write(*, *)
           write(*, *) "|", a(i), "-", b(i), "| >", 4.d0 * ulp_d
@@ -129,7 +129,7 @@ contains
     integer(int32) :: line, i, j
     do i = 1, size(a, 2)
        do j = 1, size(a, 1)
-          if ( abs(a(j, i) - b(j, i)) >= 4.d0 * ulp_d ) then
+          if ( abs(a(j, i) - b(j, i)) >= 4.d0 * ulp_d .or. a(j, i) /= a(j, i) .or. b(j, i) /= b(j, i) ) then
              write(*, *) file, "   line:", line, "   row=", j, " col=", i
              write(*, *)
              write(*, *) "|", a(j, i), "-", b(j, i), "| >", 4.d0 * ulp_d
-- 
2.43.0


From 31d9bf420d406a67119e49125b1ae959afc96f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:32 +0000
Subject: [PATCH 24/28] fix: a step retried after repeated error test failures
 stays at or above the minimum step

---
 lib/sundials-6.1.1/src/cvodes/cvodes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sundials-6.1.1/src/cvodes/cvodes.c b/lib/sundials-6.1.1/src/cvodes/cvodes.c
index d4c64e2..83c1e33 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodes.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodes.c
@@ -6893,9 +6893,9 @@ static int cvDoErrorTest(CVodeMem cv_mem, int *nflagPtr, realtype saved_t,
   /* Set h ratio eta from dsm, rescale, and return for retry of step */
   if (*nefPtr <= MXNEF1) {
     cv_mem->cv_eta = ONE / (SUNRpowerR(BIAS2*dsm,ONE/cv_mem->cv_L) + ADDON);
+    if (*nefPtr >= SMALL_NEF) cv_mem->cv_eta = SUNMIN(cv_mem->cv_eta, ETAMXF);
     cv_mem->cv_eta = SUNMAX(ETAMIN, SUNMAX(cv_mem->cv_eta,
                                            cv_mem->cv_hmin / SUNRabs(cv_mem->cv_h)));
-    if (*nefPtr >= SMALL_NEF) cv_mem->cv_eta = SUNMIN(cv_mem->cv_eta, ETAMXF);
     cvRescale(cv_mem);
     return(TRY_AGAIN);
   }
-- 
2.43.0


From 88772fd405dfa218289113bb3ca9b3b31b7d89bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:36 +0000
Subject: [PATCH 25/28] fix: the sensitivity tolerance setters leaked an array
 when both kinds are used

CVodeSensSStolerances and CVodeSensSVtolerances each allocated cv_atolSmin0
the first time they were called, so that calling one after the other lost the
array of the first.
---
 lib/sundials-6.1.1/src/cvodes/cvodes.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/sundials-6.1.1/src/cvodes/cvodes.c b/lib/sundials-6.1.1/src/cvodes/cvodes.c
index 83c1e33..1f64ee2 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodes.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodes.c
@@ -2106,7 +2106,8 @@ int CVodeSensSStolerances(void *cvode_mem, realtype reltolS, realtype *abstolS)
   if ( !(cv_mem->cv_SabstolSMallocDone) ) {
     cv_mem->cv_SabstolS = NULL;
     cv_mem->cv_SabstolS = (realtype *)malloc(cv_mem->cv_Ns*sizeof(realtype));
-    cv_mem->cv_atolSmin0 = (booleantype *)malloc(cv_mem->cv_Ns*sizeof(booleantype));
+    if (cv_mem->cv_atolSmin0 == NULL)
+      cv_mem->cv_atolSmin0 = (booleantype *)malloc(cv_mem->cv_Ns*sizeof(booleantype));
     cv_mem->cv_lrw += cv_mem->cv_Ns;
     cv_mem->cv_SabstolSMallocDone = SUNTRUE;
   }
@@ -2179,7 +2180,8 @@ int CVodeSensSVtolerances(void *cvode_mem,  realtype reltolS, N_Vector *abstolS)
 
   if ( !(cv_mem->cv_VabstolSMallocDone) ) {
     cv_mem->cv_VabstolS = N_VCloneVectorArray(cv_mem->cv_Ns, cv_mem->cv_tempv);
-    cv_mem->cv_atolSmin0 = (booleantype *)malloc(cv_mem->cv_Ns*sizeof(booleantype));
+    if (cv_mem->cv_atolSmin0 == NULL)
+      cv_mem->cv_atolSmin0 = (booleantype *)malloc(cv_mem->cv_Ns*sizeof(booleantype));
     cv_mem->cv_lrw += cv_mem->cv_Ns*cv_mem->cv_lrw1;
     cv_mem->cv_liw += cv_mem->cv_Ns*cv_mem->cv_liw1;
     cv_mem->cv_VabstolSMallocDone = SUNTRUE;
-- 
2.43.0


From ca431f6e614bf09b6b53001169f512fe9e82d54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:44 +0000
Subject: [PATCH 26/28] fix: the Adams history was corrupted by a decrease of
 order from 4 or above

---
 lib/sundials-6.1.1/src/cvodes/cvodes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sundials-6.1.1/src/cvodes/cvodes.c b/lib/sundials-6.1.1/src/cvodes/cvodes.c
index 1f64ee2..ffdaa83 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodes.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodes.c
@@ -5762,7 +5762,7 @@ static void cvAdjustAdams(CVodeMem cv_mem, int deltaq)
       cv_mem->cv_l[i] = cv_mem->cv_l[i]*xi + cv_mem->cv_l[i-1];
   }
 
-  for (j=1; j <= cv_mem->cv_q-2; j++)
+  for (j=cv_mem->cv_q-2; j >= 1; j--)
     cv_mem->cv_l[j+1] = cv_mem->cv_q * (cv_mem->cv_l[j] / (j+1));
 
   if (cv_mem->cv_q > 2) {
-- 
2.43.0


From 47245bd52515edfaa2457fbafda85876ec1cca05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:44 +0000
Subject: [PATCH 27/28] fix: a BDF order increase used a stale correction for
 sensitivities without error control

---
 lib/sundials-6.1.1/src/cvodes/cvodes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sundials-6.1.1/src/cvodes/cvodes.c b/lib/sundials-6.1.1/src/cvodes/cvodes.c
index ffdaa83..be40809 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodes.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodes.c
@@ -7279,7 +7279,7 @@ static void cvChooseEta(CVodeMem cv_mem)
       if (cv_mem->cv_quadr && cv_mem->cv_errconQ)
         N_VScale(ONE, cv_mem->cv_acorQ, cv_mem->cv_znQ[cv_mem->cv_qmax]);
 
-      if (cv_mem->cv_sensi && cv_mem->cv_errconS) {
+      if (cv_mem->cv_sensi) {
         for (is=0; is<cv_mem->cv_Ns; is++)
           cv_mem->cv_cvals[is] = ONE;
 
-- 
2.43.0


From 46f6d2b3fb4c7134ab81c9aff637689c86e9e298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:33 +0000
Subject: [PATCH 28/28] fix: compute the step reduction after a failed
 inequality constraint from the last solution

cvCheckConstraints compared y with zn[0], which holds the prediction at
that point and not y_{n-1}: the reduced step could be longer than the
failed one, or shorter by 1 % ten times in a row, after which the solve
stops although the constraint can be satisfied.
---
 lib/sundials-6.1.1/src/cvodes/cvodes.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/sundials-6.1.1/src/cvodes/cvodes.c b/lib/sundials-6.1.1/src/cvodes/cvodes.c
index be40809..7304370 100644
--- a/lib/sundials-6.1.1/src/cvodes/cvodes.c
+++ b/lib/sundials-6.1.1/src/cvodes/cvodes.c
@@ -6461,6 +6461,8 @@ static int cvCheckConstraints(CVodeMem cv_mem)
   realtype vnorm;
   N_Vector mm  = cv_mem->cv_ftemp;
   N_Vector tmp = cv_mem->cv_tempv;
+  N_Vector yprev;
+  int j;
 
   /* Get mask vector mm, set where constraints failed */
   constraintsPassed = N_VConstrMask(cv_mem->cv_constraints, cv_mem->cv_y, mm);
@@ -6488,10 +6490,15 @@ static int cvCheckConstraints(CVodeMem cv_mem)
   /* Return with error if |h| == hmin */
   if (SUNRabs(cv_mem->cv_h) <= cv_mem->cv_hmin*ONEPSM) return(CV_CONSTR_FAIL);
 
-  /* Constraint correction is too large, reduce h by computing eta = h'/h */
-  N_VLinearSum(ONE, cv_mem->cv_zn[0], -ONE, cv_mem->cv_y, tmp);
+  /* Constraint correction is too large, reduce h by computing eta = h'/h.
+     zn[0] is the prediction here: recover y_{n-1} (acor is not needed again) */
+  yprev = cv_mem->cv_acor;
+  N_VScale(ONE, cv_mem->cv_zn[0], yprev);
+  for (j = 1; j <= cv_mem->cv_q; j++)
+    N_VLinearSum((j % 2) ? -ONE : ONE, cv_mem->cv_zn[j], ONE, yprev, yprev);
+  N_VLinearSum(ONE, yprev, -ONE, cv_mem->cv_y, tmp);
   N_VProd(mm, tmp, tmp);
-  cv_mem->cv_eta = PT9*N_VMinQuotient(cv_mem->cv_zn[0], tmp);
+  cv_mem->cv_eta = PT9*N_VMinQuotient(yprev, tmp);
   cv_mem->cv_eta = SUNMAX(cv_mem->cv_eta, PT1);
   cv_mem->cv_eta = SUNMAX(cv_mem->cv_eta,
                           cv_mem->cv_hmin / SUNRabs(cv_mem->cv_h));
-- 
2.43.0

