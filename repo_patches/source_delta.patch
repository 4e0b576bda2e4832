From ddd08095e36134716ad835951eb9211cebdf4963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:50 +0000
Subject: [PATCH 01/37] fix: skip all empty matrices in
 concatenateMatricesVertically

An empty matrix following another empty matrix was not dropped.
---
 core/include/eigentools/eigentools.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/include/eigentools/eigentools.h b/core/include/eigentools/eigentools.h
index 8a4cc53..0dbd8d9 100644
--- a/core/include/eigentools/eigentools.h
+++ b/core/include/eigentools/eigentools.h
@@ -480,13 +480,17 @@ namespace etools
             std::ptrdiff_t total_number_of_rows = 0;
             std::ptrdiff_t number_of_cols = 0;
 
-            for(std::size_t i = 0; i < number_of_matrices; ++i)
+            for(std::size_t i = 0; i < number_of_matrices;)
             {
                 if(!nonempty_matrices[i].size())
                 {
                     nonempty_matrices.erase(nonempty_matrices.begin() + i);
                     --number_of_matrices;
                 }
+                else
+                {
+                    ++i;
+                }
             }
 
             if(!number_of_matrices)
-- 
2.43.0


From 80a05319e1af51dfc9d24edde16d8da47c16c90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:50 +0000
Subject: [PATCH 02/37] fix: check the index in removeRow() and removeColumn()
 correctly

An index equal to the size removed the last row or column, and the index of
a column was compared with the number of rows.
---
 core/include/eigentools/eigentools.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/eigentools/eigentools.h b/core/include/eigentools/eigentools.h
index 0dbd8d9..6f74668 100644
--- a/core/include/eigentools/eigentools.h
+++ b/core/include/eigentools/eigentools.h
@@ -641,7 +641,7 @@ namespace etools
             removeRow(  Eigen::PlainObjectBase<t_Derived> & matrix,
                         const std::ptrdiff_t row_to_remove)
     {
-        EIGENTOOLS_ASSERT(row_to_remove <= matrix.rows(), "The index of a removed row is greater than the size of the matrix.");
+        EIGENTOOLS_ASSERT(row_to_remove < matrix.rows(), "The index of a removed row is greater than the size of the matrix.");
 
         std::ptrdiff_t number_of_rows = matrix.rows()-1;
         std::ptrdiff_t number_of_cols = matrix.cols();
@@ -673,7 +673,7 @@ namespace etools
             removeColumn(   Eigen::PlainObjectBase<t_Derived> & matrix,
                             const std::ptrdiff_t column_to_remove)
     {
-        EIGENTOOLS_ASSERT(column_to_remove <= matrix.rows(), "The index of a removed column is greater than the size of the matrix.");
+        EIGENTOOLS_ASSERT(column_to_remove < matrix.cols(), "The index of a removed column is greater than the size of the matrix.");
 
         std::ptrdiff_t number_of_rows = matrix.rows();
         std::ptrdiff_t number_of_cols = matrix.cols()-1;
-- 
2.43.0


From 5357f38ee5b5536fbf3ba3895f374377a63f1232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:50 +0000
Subject: [PATCH 03/37] fix: width of blocks returned by selectRowInBlocks()

The height of the original blocks was used for dynamic block sizes.
---
 core/include/eigentools/blockmatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/eigentools/blockmatrix.h b/core/include/eigentools/blockmatrix.h
index 4a7733d..19525e0 100644
--- a/core/include/eigentools/blockmatrix.h
+++ b/core/include/eigentools/blockmatrix.h
@@ -203,7 +203,7 @@ namespace etools
                                                         EIGENTOOLS_BLOCKMATRIX_BLOCK_ROWS_NUM,
                                                         row_in_a_block),
                                      MatrixBlockSizeType::UNDEFINED,
-                                     ((t_block_rows_num > 0) ? MatrixBlockSizeType::UNDEFINED : block_rows_num_)));
+                                     ((t_block_cols_num > 0) ? MatrixBlockSizeType::UNDEFINED : block_cols_num_)));
             }
 
 
-- 
2.43.0


From afd3203d7202f3e601e7685abc0c0b2bc76f5e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:50 +0000
Subject: [PATCH 04/37] fix: coefficients of a cubic polynomial with nonzero
 velocities

The final position and velocity were not reached.
---
 core/include/rigid_body/cubic_polynomial.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/rigid_body/cubic_polynomial.h b/core/include/rigid_body/cubic_polynomial.h
index 8c76869..971fc8d 100644
--- a/core/include/rigid_body/cubic_polynomial.h
+++ b/core/include/rigid_body/cubic_polynomial.h
@@ -82,8 +82,8 @@ namespace humoto
                 {
                     a0_ = a;
                     a1_ = adot;
-                    a2_ =  3.0*(b - a) - 2.0*(adot - bdot);
-                    a3_ = -2.0*(b - a) + 1.0*(bdot - adot);
+                    a2_ =  3.0*(b - a) - 2.0*adot - bdot;
+                    a3_ = -2.0*(b - a) + adot + bdot;
                 }
 
 
-- 
2.43.0


From fe9c83e3d39bd67b0aa0e8bc17d067eb8e04a439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:28 +0000
Subject: [PATCH 05/37] fix: derivatives of the vertical motion of a foot

The vertical motion consists of two cubic polynomials, each evaluated at
twice the time: velocity and acceleration must be scaled accordingly.
---
 core/include/walking/foot_trajectory.h | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/core/include/walking/foot_trajectory.h b/core/include/walking/foot_trajectory.h
index 3ba7b77..869cd6e 100644
--- a/core/include/walking/foot_trajectory.h
+++ b/core/include/walking/foot_trajectory.h
@@ -66,8 +66,9 @@ namespace humoto
                     HUMOTO_ASSERT(b(2) <= (a(2) + step_height), "final z position greater than step height.")
                     x_.initialize( a(0),               adot(0), b(0),               bdot(0));
                     y_.initialize( a(1),               adot(1), b(1),               bdot(1));
-                    z1_.initialize(a(2),               adot(2), a(2) + step_height, 0.0);
-                    z2_.initialize(step_height + a(2), 0.0,     b(2),               bdot(2));
+                    // each half is parametrized with 2*t
+                    z1_.initialize(a(2),               adot(2)/2, a(2) + step_height, 0.0);
+                    z2_.initialize(step_height + a(2), 0.0,       b(2),               bdot(2)/2);
                 }
 
 
@@ -92,8 +93,9 @@ namespace humoto
                                        b.rpy_(humoto::AngleIndex::YAW),
                                        b.angular_velocity_(humoto::AngleIndex::YAW));
                     
-                    z1_.initialize(a.position_(2),               a.velocity_(2), a.position_(2) + step_height, 0.0);
-                    z2_.initialize(step_height + a.position_(2), 0.0,            b.position_(2),               b.velocity_(2));
+                    // each half is parametrized with 2*t
+                    z1_.initialize(a.position_(2),               a.velocity_(2)/2, a.position_(2) + step_height, 0.0);
+                    z2_.initialize(step_height + a.position_(2), 0.0,              b.position_(2),               b.velocity_(2)/2);
                 }
 
 
@@ -127,13 +129,24 @@ namespace humoto
                 double evalz(   const double t,
                                 const rigidbody::TrajectoryEvaluationType::Type trajectory_type) const
                 {
+                    // derivatives with respect to t: each half is parametrized with 2*t
+                    double scale = 1.0;
+                    if (rigidbody::TrajectoryEvaluationType::VELOCITY == trajectory_type)
+                    {
+                        scale = 2.0;
+                    }
+                    if (rigidbody::TrajectoryEvaluationType::ACCELERATION == trajectory_type)
+                    {
+                        scale = 4.0;
+                    }
+
                     if (t <= 0.5)
                     {
-                        return (z1_.eval(t*2, trajectory_type));
+                        return (scale * z1_.eval(t*2, trajectory_type));
                     }
                     else
                     {
-                        return (z2_.eval((t-0.5)*2, trajectory_type));
+                        return (scale * z2_.eval((t-0.5)*2, trajectory_type));
                     }
                 }
                 
-- 
2.43.0


From fd614e2df9d30228483a9b53cfaa5b0933954693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:07 +0000
Subject: [PATCH 06/37] fix: access to blocks of maps

Blocks of a matrix map were constructed from a temporary copy of the mapped
data.
---
 core/include/eigentools/blockmatrix_base.h | 27 ++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/core/include/eigentools/blockmatrix_base.h b/core/include/eigentools/blockmatrix_base.h
index 9ef7792..e2f0447 100644
--- a/core/include/eigentools/blockmatrix_base.h
+++ b/core/include/eigentools/blockmatrix_base.h
@@ -65,6 +65,25 @@ namespace etools
 
 
 
+    /**
+     * @brief Type of the matrix whose blocks are accessed.
+     */
+    template<class T>   struct BlockSource
+    {
+        typedef EIGENTOOLS_DYNAMIC_MATRIX( typename T::Scalar ) Type;
+    };
+
+    /**
+     * @brief Blocks of a map must refer to the map: a conversion to a matrix
+     * produces a temporary.
+     */
+    template<typename t_PlainObject, int t_options, typename t_Stride>
+    struct BlockSource< Eigen::Map<t_PlainObject, t_options, t_Stride> >
+    {
+        typedef Eigen::Map<t_PlainObject, t_options, t_Stride> Type;
+    };
+
+
     /**
      * @brief Matrix block size type
      */
@@ -114,10 +133,10 @@ namespace etools
             typedef typename DecayedRawMatrix::Scalar           Scalar;
 
             /// Shorthand for Eigen block
-            typedef Eigen::Block< EIGENTOOLS_DYNAMIC_MATRIX( Scalar ) > DynamicMatrixBlock;
+            typedef Eigen::Block< typename BlockSource<DecayedRawMatrix>::Type > DynamicMatrixBlock;
 
             /// Shorthand for Eigen block
-            typedef const Eigen::Block< const EIGENTOOLS_DYNAMIC_MATRIX( Scalar ) > ConstDynamicMatrixBlock;
+            typedef const Eigen::Block< const typename BlockSource<DecayedRawMatrix>::Type > ConstDynamicMatrixBlock;
 
 
         public:
@@ -550,12 +569,12 @@ namespace etools
 
 
             /// Shorthand for Eigen block
-            typedef Eigen::Block<   EIGENTOOLS_DYNAMIC_MATRIX( Scalar ),
+            typedef Eigen::Block<   typename BlockSource<DecayedRawMatrix>::Type,
                                     t_block_rows_num,
                                     t_block_cols_num> StaticMatrixBlock;
 
             /// Shorthand for Eigen block
-            typedef const Eigen::Block< const EIGENTOOLS_DYNAMIC_MATRIX( Scalar ),
+            typedef const Eigen::Block< const typename BlockSource<DecayedRawMatrix>::Type,
                                         t_block_rows_num,
                                         t_block_cols_num> ConstStaticMatrixBlock;
 
-- 
2.43.0


From dee182da01656a78d5cbd87b59be86446fa502e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:54 +0000
Subject: [PATCH 07/37] fix: objective of TaskIB

ConstraintsIB referred to functions which do not exist, so that tasks of this
type could not be used at all.
---
 core/include/humoto/constraints.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/core/include/humoto/constraints.h b/core/include/humoto/constraints.h
index d2e2ae6..76f9ecf 100644
--- a/core/include/humoto/constraints.h
+++ b/core/include/humoto/constraints.h
@@ -981,6 +981,16 @@ namespace humoto
                 ConstraintsIB() {}
 
 
+                /// @copydoc humoto::constraints::BoundsB0Mixin::getATb
+                void addATb(Eigen::VectorXd &g) const
+                {
+                    for (EigenIndex i = 0; i < getIndices().rows(); ++i)
+                    {
+                        g[getIndices()[i]] += getB()[i];
+                    }
+                }
+
+
             public:
                 using HUMOTO_PARENT_CLASS_SHORTHAND::getIndices;
                 using HUMOTO_PARENT_CLASS_SHORTHAND::getB;
@@ -1006,7 +1016,8 @@ namespace humoto
                 void getATAandATb(Eigen::MatrixXd &H, Eigen::VectorXd &g) const
                 {
                     HUMOTO_PARENT_CLASS_SHORTHAND::getATA(H);
-                    HUMOTO_PARENT_CLASS_SHORTHAND::getATb(g);
+                    g.setZero(HUMOTO_PARENT_CLASS_SHORTHAND::getNumberOfVariables());
+                    addATb(g);
                 }
 
 
@@ -1014,7 +1025,7 @@ namespace humoto
                 void addATAandATb(Eigen::MatrixXd &H, Eigen::VectorXd &g) const
                 {
                     HUMOTO_PARENT_CLASS_SHORTHAND::addATA(H);
-                    HUMOTO_PARENT_CLASS_SHORTHAND::addATb(g);
+                    addATb(g);
                 }
         };
 #undef HUMOTO_PARENT_CLASS_SHORTHAND
-- 
2.43.0


From 0ef7927b73ac71f9a62a43579b048d53feb2fd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:46 +0000
Subject: [PATCH 08/37] fix: drop outdated guess of the active set of a task

A hierarchy formed with guessing of the active set could not be formed
without it later if the number of constraints of a task had changed.
---
 core/include/humoto/hierarchy_level.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/include/humoto/hierarchy_level.h b/core/include/humoto/hierarchy_level.h
index e950d26..cc5a101 100644
--- a/core/include/humoto/hierarchy_level.h
+++ b/core/include/humoto/hierarchy_level.h
@@ -71,6 +71,11 @@ namespace humoto
                     {
                        it->ptr_->guessActiveSet(sol_structure, model, control_problem);
                     }
+                    else
+                    {
+                        // do not keep a guess, which was computed for a different version of the task
+                        it->ptr_->getActiveSetGuess().reset();
+                    }
                     it->ptr_->postForm();
 
 
-- 
2.43.0


From 3d846846dbc14617e1ad646bbb478f9ee5ab398e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:59 +0000
Subject: [PATCH 09/37] fix: reset constraints of a QP obtained from a single
 level

Constraints of a previous hierarchy were preserved, and the matrix of
equalities had a wrong number of columns, which crashed kktsolver.
---
 core/include/humoto/hierarchy.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/include/humoto/hierarchy.h b/core/include/humoto/hierarchy.h
index 131c12f..a393464 100644
--- a/core/include/humoto/hierarchy.h
+++ b/core/include/humoto/hierarchy.h
@@ -344,6 +344,11 @@ namespace humoto
                 {
                     qp_problem.initializeConstraints(hierarchy_[0], sol_structure);
                 }
+                else
+                {
+                    // no constraints, qp_problem may contain constraints of a different hierarchy
+                    qp_problem.initializeConstraints(humoto::HierarchyLevel(), sol_structure);
+                }
             }
     };
 }
-- 
2.43.0


From 75bd6164b4dd75c8f2f937bcde2918120c29c98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:24 +0000
Subject: [PATCH 10/37] fix: reject parts of a solution which are added twice

The second part was not registered, but its variables were appended to
the solution.
---
 core/include/humoto/solution.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/include/humoto/solution.h b/core/include/humoto/solution.h
index d3e6812..4c750f8 100644
--- a/core/include/humoto/solution.h
+++ b/core/include/humoto/solution.h
@@ -74,6 +74,9 @@ namespace humoto
             {
                 Location location(number_of_variables_, length);
 
+                HUMOTO_ASSERT(  variable_map_.find(id) == variable_map_.end(),
+                                std::string("Part of a solution is added twice: ") + id);
+
                 variable_map_.insert(std::pair< std::string, Location > (id, location));
 
                 number_of_variables_ += length;
-- 
2.43.0


From 710905716525d6a5556eb6b778a67116eef2cffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:15 +0000
Subject: [PATCH 11/37] fix: feedthrough of the first control in
 condenseOutput()

The version with several types of controls wrote the first matrix E in
the last diagonal block, leaving the first one zero.
---
 core/include/humoto/control_problem.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/humoto/control_problem.h b/core/include/humoto/control_problem.h
index c4da964..a4a9aa6 100644
--- a/core/include/humoto/control_problem.h
+++ b/core/include/humoto/control_problem.h
@@ -167,7 +167,7 @@ namespace humoto
 
                 for (std::size_t i = 0; i < Uu.size(); ++i)
                 {
-                    Ou[i](N-1, N-1) = E[0].block( 0,
+                    Ou[i](0, 0) = E[0].block( 0,
                                                   control_offsets[i],
                                                   t_num_outputs,
                                                   Uu[i].getBlockColsNum());
-- 
2.43.0


From 47c23d871a6baad0903b219f6b56eb1bc000e644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:03 +0000
Subject: [PATCH 12/37] fix: no steps are left when the type of the first
 single support is undefined

---
 core/include/walking/stance_finite_state_machine.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/include/walking/stance_finite_state_machine.h b/core/include/walking/stance_finite_state_machine.h
index 528bf6c..89c0237 100644
--- a/core/include/walking/stance_finite_state_machine.h
+++ b/core/include/walking/stance_finite_state_machine.h
@@ -262,6 +262,7 @@ namespace humoto
                                 case StanceType::UNDEFINED:
                                     current_stance_.previous_nonds_stance_type_ = StanceType::UNDEFINED;
                                     sfsm_params_.num_steps_ = 0;
+                                    ss_states_to_termination_ = 0;
                                     break;
                                 default:
                                     HUMOTO_THROW_MSG("Misformed walking options.");
-- 
2.43.0


From ad4c70e2a8a61cde93481fd867d415f62bbcc252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:03 +0000
Subject: [PATCH 13/37] fix: preview of zero duration contains no stances

---
 core/include/walking/stance_finite_state_machine.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/walking/stance_finite_state_machine.h b/core/include/walking/stance_finite_state_machine.h
index 89c0237..5570be2 100644
--- a/core/include/walking/stance_finite_state_machine.h
+++ b/core/include/walking/stance_finite_state_machine.h
@@ -357,7 +357,7 @@ namespace humoto
             }
 
             //always add one state afted TDS
-            if((not_enough_states == false) && (stance_types.back().type_ == StanceType::TDS))
+            if((not_enough_states == false) && (stance_types.empty() == false) && (stance_types.back().type_ == StanceType::TDS))
             {
                 if(stance_fsm.current_stance_.type_ == StanceType::TDS)
                 {
-- 
2.43.0


From 0248bc9a7fc5d1df4bcd710027b440433968ce18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:03 +0000
Subject: [PATCH 14/37] fix: preview beyond the end of the motion is empty

---
 core/include/walking/stance_finite_state_machine.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/include/walking/stance_finite_state_machine.h b/core/include/walking/stance_finite_state_machine.h
index 5570be2..5c4e26c 100644
--- a/core/include/walking/stance_finite_state_machine.h
+++ b/core/include/walking/stance_finite_state_machine.h
@@ -344,7 +344,9 @@ namespace humoto
 
                     if((stance_fsm.ss_states_to_termination_ == 0) && (stance_fsm.current_stance_.type_ == StanceType::DS))
                     {
+                        // the preview is impossible -> the result is empty
                         not_enough_states = true;
+                        stance_types.clear();
                         break;
                     }
                     else
-- 
2.43.0


From ec55dfa5121e0b666119298f59aa1ffb96c7c454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:51 +0000
Subject: [PATCH 15/37] fix: footstep rotations are not written outside of the
 matrix when the preview horizon contains more walk states than intervals

---
 modules/wpg04/include/wpg04/mpc_wpg.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/wpg04/include/wpg04/mpc_wpg.h b/modules/wpg04/include/wpg04/mpc_wpg.h
index 1712b2f..f18df47 100644
--- a/modules/wpg04/include/wpg04/mpc_wpg.h
+++ b/modules/wpg04/include/wpg04/mpc_wpg.h
@@ -35,7 +35,8 @@ namespace humoto
                     Rh_.setZero(preview_horizon_.intervals_.size());
 
                     std::size_t index = 0;
-                    for(std::size_t i=0; i < (preview_horizon_.walk_states_.size() - 1); ++i)
+                    // there may be more states than intervals in the preview horizon
+                    for(std::size_t i=0; index < preview_horizon_.getNumberOfVariableSteps(); ++i)
                     {
                         if (humoto::walking::StanceType::TDS != preview_horizon_.walk_states_[i].type_)
                         {
-- 
2.43.0


From da37f32ea52e6e0e4d8e043f3fde0e57025e0f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:45 +0000
Subject: [PATCH 16/37] fix: a transitional double support may last longer than
 one subsampling interval

---
 modules/wpg04/include/wpg04/model.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/wpg04/include/wpg04/model.h b/modules/wpg04/include/wpg04/model.h
index 390ca83..dd93b9f 100644
--- a/modules/wpg04/include/wpg04/model.h
+++ b/modules/wpg04/include/wpg04/model.h
@@ -188,6 +188,7 @@ namespace humoto
                                     state_.feet_.copyLeft(state.feet_);
                                     break;
 
+                                case humoto::walking::StanceType::TDS: // transitional support continues
                                 case humoto::walking::StanceType::DS:
                                     // no need to update positions of the feet (they must not change)
                                     break;
-- 
2.43.0


From 8c72ae4370407679d99920849ca00203efdd5d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:52 +0000
Subject: [PATCH 17/37] fix: heights of the base and the body were exchanged
 when a state is constructed

---
 modules/pepper_mpc/include/pepper_mpc/model_state.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/pepper_mpc/include/pepper_mpc/model_state.h b/modules/pepper_mpc/include/pepper_mpc/model_state.h
index 6fbd542..59370c7 100644
--- a/modules/pepper_mpc/include/pepper_mpc/model_state.h
+++ b/modules/pepper_mpc/include/pepper_mpc/model_state.h
@@ -99,7 +99,7 @@ namespace humoto
                             const double body_height,
                             const double body_x_offset)
                 {
-                    setParameters(body_height, base_height, body_x_offset);
+                    setParameters(base_height, body_height, body_x_offset);
                 }
 
 
-- 
2.43.0


From 96d8f7303baa30c6ce714bbc555d41066504a24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:52 +0000
Subject: [PATCH 18/37] fix: sign of the right hand side of
 TaskBodyPositionReference

---
 modules/pepper_mpc/include/pepper_mpc/task_bodypositionref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/pepper_mpc/include/pepper_mpc/task_bodypositionref.h b/modules/pepper_mpc/include/pepper_mpc/task_bodypositionref.h
index 69ed918..6d86b62 100644
--- a/modules/pepper_mpc/include/pepper_mpc/task_bodypositionref.h
+++ b/modules/pepper_mpc/include/pepper_mpc/task_bodypositionref.h
@@ -34,7 +34,7 @@ namespace humoto
                     Eigen::VectorXd     &b    = getB();
 
                     A.noalias() = getGain()*mpc.Apd_;
-                    b.noalias() = getGain()*mpc.spd_;
+                    b.noalias() = -getGain()*mpc.spd_;
                 }
         };
     }//pepper
-- 
2.43.0


From 2a2c5aa79314eaa0f3f45062c0c0cc4d66cbd186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:35 +0000
Subject: [PATCH 19/37] fix: use controls of the requested interval in
 MPCforMG::getModelState

---
 modules/pepper_mpc/include/pepper_mpc/mpc_mg.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h b/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
index 2fd0c85..d463d19 100644
--- a/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
+++ b/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
@@ -318,8 +318,8 @@ namespace humoto
                                         preview_horizon_.intervals_[interval_index].T_,
                                         interval_offset,
                                         preceding_cstate,
-                                        base_controls_.head(2),
-                                        body_controls_.head(2),
+                                        base_control,
+                                        body_control,
                                         base_height,
                                         body_height,
                                         theta);
-- 
2.43.0


From a2e3416b3c4f45a3f859bc06de728f955dacafab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:35 +0000
Subject: [PATCH 20/37] fix: masses are preserved in the next state of the
 pepper_mpc model

---
 modules/pepper_mpc/include/pepper_mpc/model.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/pepper_mpc/include/pepper_mpc/model.h b/modules/pepper_mpc/include/pepper_mpc/model.h
index e14393c..c131f71 100644
--- a/modules/pepper_mpc/include/pepper_mpc/model.h
+++ b/modules/pepper_mpc/include/pepper_mpc/model.h
@@ -264,6 +264,9 @@ namespace humoto
                     model_state.body_state_ = convertBodyStateMPCtoRB(mpc_state, body_height);
 
                     model_state.base_state_.rpy_.z() = theta;
+
+                    model_state.base_mass_ = state_.base_mass_;
+                    model_state.body_mass_ = state_.body_mass_;
                 }
 
 
-- 
2.43.0


From 771a635fc6835156ff90754c96e7b804d335b19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:30 +0000
Subject: [PATCH 21/37] fix: an active set may be shifted by its whole size

---
 core/include/humoto/active_set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/humoto/active_set.h b/core/include/humoto/active_set.h
index d490f07..3a47ba9 100644
--- a/core/include/humoto/active_set.h
+++ b/core/include/humoto/active_set.h
@@ -217,7 +217,7 @@ namespace humoto
             void shift( const std::size_t shift_size,
                         const ConstraintActivationType::Type type)
             {
-                HUMOTO_ASSERT(  shift_size < size(),
+                HUMOTO_ASSERT(  shift_size <= size(),
                                 "Shift size exceeded size of the active set.");
 
                 std::rotate(data_.begin(),
-- 
2.43.0


From 7f1b3dd4c1a4596b309ad53d02c9e86e8ec4f863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:03 +0000
Subject: [PATCH 22/37] fix: gain of TaskZeroVariables can be changed after the
 task has been formed

---
 core/include/humoto/task_generic.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/include/humoto/task_generic.h b/core/include/humoto/task_generic.h
index 315a347..5f22630 100644
--- a/core/include/humoto/task_generic.h
+++ b/core/include/humoto/task_generic.h
@@ -91,6 +91,11 @@ namespace humoto
                 }
 
 
+                // gain can be changed at any time, e.g., using setGain()
+                Eigen::VectorXd &gains = getIGains();
+                gains.setConstant(location_of_variables.length_, getGain());
+
+
                 if ( location_of_variables != location_of_variables_ )
                 {
                     // Task was modified
@@ -98,9 +103,6 @@ namespace humoto
 
 
                     humoto::IndexVector &I  = getIndices();
-                    Eigen::VectorXd &gains = getIGains();
-
-                    gains.setConstant(location_of_variables_.length_, getGain());
 
                     I.resize(location_of_variables_.length_);
                     for (std::size_t i = 0; i < location_of_variables_.length_; ++i)
-- 
2.43.0


From bd89f3f6c4c280f5aff3cfe229d26e0c5a72f0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:03 +0000
Subject: [PATCH 23/37] fix: write matrices in the order in which they are read
 from configuration files

---
 bridges/config_msgpack/interface/config_msgpack/writer.h | 8 ++++++--
 bridges/config_yaml/interface/config_yaml/writer.h       | 7 ++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/bridges/config_msgpack/interface/config_msgpack/writer.h b/bridges/config_msgpack/interface/config_msgpack/writer.h
index 31dc8c8..9466911 100644
--- a/bridges/config_msgpack/interface/config_msgpack/writer.h
+++ b/bridges/config_msgpack/interface/config_msgpack/writer.h
@@ -139,9 +139,13 @@ namespace humoto
                         packer_->pack("data");
                         packer_->pack_array(entry.size());
 
-                        for (humoto::EigenIndex i = 0; i < entry.size(); ++i)
+                        // row major order, the same as in the reader
+                        for (humoto::EigenIndex i = 0; i < entry.rows(); ++i)
                         {
-                            packer_->pack(entry.data()[i]);
+                            for (humoto::EigenIndex j = 0; j < entry.cols(); ++j)
+                            {
+                                packer_->pack(entry(i, j));
+                            }
                         }
 
                         ascend();
diff --git a/bridges/config_yaml/interface/config_yaml/writer.h b/bridges/config_yaml/interface/config_yaml/writer.h
index 95a7d99..2c39944 100644
--- a/bridges/config_yaml/interface/config_yaml/writer.h
+++ b/bridges/config_yaml/interface/config_yaml/writer.h
@@ -166,11 +166,12 @@ namespace humoto
                         *emitter_ << YAML::Value << YAML::Flow;
                         *emitter_ << YAML::BeginSeq;
 
-                        for(humoto::EigenIndex i = 0; i < entry.cols(); ++i)
+                        // row major order, the same as in the reader
+                        for(humoto::EigenIndex i = 0; i < entry.rows(); ++i)
                         {
-                            for(humoto::EigenIndex j = 0; j < entry.rows(); ++j)
+                            for(humoto::EigenIndex j = 0; j < entry.cols(); ++j)
                             {
-                                *emitter_ << entry(j, i);
+                                *emitter_ << entry(i, j);
                             }
                         }
 
-- 
2.43.0


From b37b5cc5f17e463e11b174dbf5a2cf8fd004b818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:03 +0000
Subject: [PATCH 24/37] fix: preserve structure of nested vectors in YAML
 configuration files

---
 bridges/config_yaml/interface/config_yaml/writer.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bridges/config_yaml/interface/config_yaml/writer.h b/bridges/config_yaml/interface/config_yaml/writer.h
index 2c39944..414058c 100644
--- a/bridges/config_yaml/interface/config_yaml/writer.h
+++ b/bridges/config_yaml/interface/config_yaml/writer.h
@@ -199,10 +199,12 @@ namespace humoto
 
                         for(std::size_t i = 0; i < entry.size(); ++i)
                         {
+                            *emitter_ << YAML::BeginSeq;
                             for(std::size_t j = 0; j < entry[i].size(); ++j)
                             {
                                 *emitter_ << entry[i][j];
                             }
+                            *emitter_ << YAML::EndSeq;
                         }
 
                         *emitter_ << YAML::EndSeq;
-- 
2.43.0


From 0ccc178e351f0202ea84140c6e11a8277aabcb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:03 +0000
Subject: [PATCH 25/37] fix: report unknown tasks in
 ConfigurableOptimizationProblem

---
 core/include/humoto/configurable_optimization_problem.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/humoto/configurable_optimization_problem.h b/core/include/humoto/configurable_optimization_problem.h
index 8200407..08bde1d 100644
--- a/core/include/humoto/configurable_optimization_problem.h
+++ b/core/include/humoto/configurable_optimization_problem.h
@@ -150,10 +150,10 @@ namespace humoto
                     for(std::size_t j = 0; j < task_class_names_[i].size(); ++j)
                     {
                         humoto::TaskSharedPointer task = getTask(task_class_names_[i][j]);
-                        task->setDescription(task_ids_[i][j]);
 
                         if (task)
                         {
+                            task->setDescription(task_ids_[i][j]);
                             // configure tasks
                             task->readConfig(reader, task_ids_[i][j], crash_on_missing_entry);
                             // push tasks into the stack/hierarchy
-- 
2.43.0


From 52afb647da5543fb30b5f125660dd201da1d9990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:03 +0000
Subject: [PATCH 26/37] fix: find any section of a MessagePack configuration
 file

---
 .../config_msgpack/interface/config_msgpack/reader.h  | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bridges/config_msgpack/interface/config_msgpack/reader.h b/bridges/config_msgpack/interface/config_msgpack/reader.h
index c4d1168..943fc0b 100644
--- a/bridges/config_msgpack/interface/config_msgpack/reader.h
+++ b/bridges/config_msgpack/interface/config_msgpack/reader.h
@@ -122,12 +122,15 @@ namespace humoto
                             {
                                 if (::msgpack::type::MAP == handles_[i]->get().type)
                                 {
-                                    if (child_name == handles_[i]->get().via.map.ptr[0].key.as<std::string>())
+                                    for (std::size_t j = 0; j < handles_[i]->get().via.map.size; ++j)
                                     {
-                                        if (::msgpack::type::MAP == handles_[i]->get().via.map.ptr[0].val.type)
+                                        if (child_name == handles_[i]->get().via.map.ptr[j].key.as<std::string>())
                                         {
-                                            node_stack_.push( &(handles_[i]->get().via.map.ptr[0].val) );
-                                            return(true);
+                                            if (::msgpack::type::MAP == handles_[i]->get().via.map.ptr[j].val.type)
+                                            {
+                                                node_stack_.push( &(handles_[i]->get().via.map.ptr[j].val) );
+                                                return(true);
+                                            }
                                         }
                                     }
                                 }
-- 
2.43.0


From 749a680c2b06bdd40134577e15691d4bd9473835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:18 +0000
Subject: [PATCH 27/37] fix: a logger can be initialized again after logging to
 a file

---
 core/include/humoto/logger.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/include/humoto/logger.h b/core/include/humoto/logger.h
index 82b25d8..5db20b5 100644
--- a/core/include/humoto/logger.h
+++ b/core/include/humoto/logger.h
@@ -314,6 +314,7 @@ namespace humoto
                 if (file_stream_is_open_)
                 {
                     output_file_stream_.close();
+                    file_stream_is_open_ = false;
                 }
             }
 
@@ -375,6 +376,7 @@ namespace humoto
              */
             explicit LoggerBase(std::ostream & output_stream)
             {
+                file_stream_is_open_ = false;
                 initialize(output_stream);
             }
 
@@ -386,6 +388,7 @@ namespace humoto
              */
             explicit LoggerBase(const std::string &output_filename)
             {
+                file_stream_is_open_ = false;
                 initialize(output_filename);
             }
 
@@ -408,7 +411,8 @@ namespace humoto
              */
             void initialize(std::ostream & output_stream)
             {
-                file_stream_is_open_ = false;
+                clean();
+
                 output_stream_ = &output_stream;
 
                 setDefaults();
@@ -422,13 +426,14 @@ namespace humoto
              */
             void initialize(const std::string &output_filename)
             {
-                file_stream_is_open_ = true;
+                clean();
 
                 output_file_stream_.open(output_filename.c_str());
                 if (output_file_stream_.fail())
                 {
                     HUMOTO_THROW_MSG(std::string("Could not open log file: ") + output_filename);
                 }
+                file_stream_is_open_ = true;
                 output_stream_ = &output_file_stream_;
 
                 setDefaults();
-- 
2.43.0


From 9f4770cfa61bc69f27aaa2ce7c72700c50017b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:18 +0000
Subject: [PATCH 28/37] fix: quote strings in logs written without threads

---
 core/include/humoto/logger.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/core/include/humoto/logger.h b/core/include/humoto/logger.h
index 5db20b5..1a3b155 100644
--- a/core/include/humoto/logger.h
+++ b/core/include/humoto/logger.h
@@ -967,6 +967,19 @@ namespace humoto
                 OctaveFormatter::formatAndOutputEntry(output_stream_, name.getAsString(), data);
                 output_stream_->flush();
             }
+
+
+            /**
+             * @brief Log data (char string)
+             *
+             * @param[in] name
+             * @param[in] string
+             */
+            void  log(  const LogEntryName & name,
+                        const char *string)
+            {
+                log(name, std::string(string));
+            }
     };
 #endif // HUMOTO_USE_THREADS_FOR_LOGGING
 }
-- 
2.43.0


From 63ddcbb7e75fce91faec58ccdfd3ca9cb2ffda08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:12 +0000
Subject: [PATCH 29/37] fix: orientation of the back sonar in the models of
 Pepper with the root at tibia

---
 modules/pepper_ik/config/pepper_fixedwheels_roottibia.urdf      | 2 +-
 .../pepper_ik/config/pepper_fixedwheels_roottibia_planar.urdf   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/pepper_ik/config/pepper_fixedwheels_roottibia.urdf b/modules/pepper_ik/config/pepper_fixedwheels_roottibia.urdf
index 44d6a05..5212730 100644
--- a/modules/pepper_ik/config/pepper_fixedwheels_roottibia.urdf
+++ b/modules/pepper_ik/config/pepper_fixedwheels_roottibia.urdf
@@ -267,7 +267,7 @@
   <joint name="Sonar/Back_sensor_fixedjoint" type="fixed">
     <parent link="Tibia"/>
     <child link="SonarBack_frame"/>
-    <origin rpy="-1.81761e-08 -0.209438 -2.80759" xyz="-0.0718 0 0.2806"/>
+    <origin rpy="-1.81761e-08 -0.209438 -3.14159" xyz="-0.0718 0 0.2806"/>
     <axis xyz="0 0 0"/>
   </joint>
   <link name="CameraBottom_optical_frame"/>
diff --git a/modules/pepper_ik/config/pepper_fixedwheels_roottibia_planar.urdf b/modules/pepper_ik/config/pepper_fixedwheels_roottibia_planar.urdf
index 484f4c3..470fed6 100644
--- a/modules/pepper_ik/config/pepper_fixedwheels_roottibia_planar.urdf
+++ b/modules/pepper_ik/config/pepper_fixedwheels_roottibia_planar.urdf
@@ -267,7 +267,7 @@
   <joint name="Sonar/Back_sensor_fixedjoint" type="fixed">
     <parent link="Tibia"/>
     <child link="SonarBack_frame"/>
-    <origin rpy="-1.81761e-08 -0.209438 -2.80759" xyz="-0.0718 0 0.2806"/>
+    <origin rpy="-1.81761e-08 -0.209438 -3.14159" xyz="-0.0718 0 0.2806"/>
     <axis xyz="0 0 0"/>
   </joint>
   <link name="CameraBottom_optical_frame"/>
-- 
2.43.0


From e86bfc12afd2015caa8a603c99d5c6997237a953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:12 +0000
Subject: [PATCH 30/37] fix: compare positions of the root in
 checkStateTransition()

---
 modules/pepper_ik/include/pepper_ik/model.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/pepper_ik/include/pepper_ik/model.h b/modules/pepper_ik/include/pepper_ik/model.h
index 4513aaf..b880f3e 100644
--- a/modules/pepper_ik/include/pepper_ik/model.h
+++ b/modules/pepper_ik/include/pepper_ik/model.h
@@ -685,8 +685,8 @@ namespace humoto
                     etools::Vector3 root_from;
                     etools::Vector3 root_to;
 
-                    ModelDescription<t_features>::getRootPosition(root_from, generalized_coordinates_from.joint_angles_);
-                    ModelDescription<t_features>::getRootPosition(root_to, generalized_coordinates_to.joint_angles_);
+                    generalized_coordinates_from.getRootPosition(root_from);
+                    generalized_coordinates_to.getRootPosition(root_to);
 
                     if (! root_from.isApprox(root_to, error_tol))
                     {
-- 
2.43.0


From 415b25aa0f3832e0d6e241dec2496c873e960d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:12 +0000
Subject: [PATCH 31/37] fix: velocities of tags are those of their points

---
 .../include/pepper_ik/whole_body_controller.h | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/modules/pepper_ik/include/pepper_ik/whole_body_controller.h b/modules/pepper_ik/include/pepper_ik/whole_body_controller.h
index d04acda..f32eae1 100644
--- a/modules/pepper_ik/include/pepper_ik/whole_body_controller.h
+++ b/modules/pepper_ik/include/pepper_ik/whole_body_controller.h
@@ -91,10 +91,15 @@ namespace humoto
                  */
                 etools::Vector6 getBaseVelocityInGlobal(const humoto::pepper_ik::Model<t_features>& model)
                 {
-                    return(getTagVelocityInGlobal(model, "CameraTop_optical_frame",
+                    etools::Vector6 velocity = getTagVelocityInGlobal(model, "CameraTop_optical_frame",
                                                           getTagVelocityInLocal("CameraTop_optical_frame",
                                                               rbdl::SpatialType::COMPLETE),
-                                                                   rbdl::SpatialType::COMPLETE));
+                                                                   rbdl::SpatialType::COMPLETE);
+                    etools::Vector3 position = model.getTagPosition(model.getLinkTag("CameraTop_optical_frame"));
+
+                    velocity.tail(3) += position.cross(etools::Vector3(velocity.head(3)));
+
+                    return(velocity);
                 }
 
 
@@ -129,20 +134,16 @@ namespace humoto
                             break;
                         
                         case rbdl::SpatialType::TRANSLATION:
-                            velocity_in_global.tail(part_size) = model.getTagPosition(tag).cross(model.getTagOrientation(tag)
-                                                    * tag_velocity_local.tail(part_size))
-                                                    + model.getTagOrientation(tag) *
-                                                      tag_velocity_local.head(part_size);
+                            velocity_in_global.tail(part_size) = model.getTagOrientation(tag) *
+                                                    tag_velocity_local.head(part_size);
                             break;
 
                         case rbdl::SpatialType::COMPLETE:
                             velocity_in_global.head(part_size) = model.getTagOrientation(tag) *
                                                     tag_velocity_local.tail(part_size);
                         
-                            velocity_in_global.tail(part_size) = model.getTagPosition(tag).cross(model.getTagOrientation(tag)
-                                                    * tag_velocity_local.tail(part_size))
-                                                    + model.getTagOrientation(tag) *
-                                                      tag_velocity_local.head(part_size);
+                            velocity_in_global.tail(part_size) = model.getTagOrientation(tag) *
+                                                    tag_velocity_local.head(part_size);
                             break;
                         
                         default:
-- 
2.43.0


From eb7bcfe30d76b1594fe19b10466c0f2e5ce3e83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:47 +0000
Subject: [PATCH 32/37] fix: the yaw angle of the base is not mixed with its
 other angles

---
 modules/pepper_ik/include/pepper_ik/model.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/pepper_ik/include/pepper_ik/model.h b/modules/pepper_ik/include/pepper_ik/model.h
index b880f3e..40de4e2 100644
--- a/modules/pepper_ik/include/pepper_ik/model.h
+++ b/modules/pepper_ik/include/pepper_ik/model.h
@@ -437,7 +437,8 @@ namespace humoto
                  */
                 double getBaseYaw() const
                 {
-                    return (convertMatrixToEulerAngles(getBaseOrientation(), rigidbody::EulerAngles::RPY).z());
+                    etools::Matrix3 base_orientation = getBaseOrientation();
+                    return (std::atan2(base_orientation(1, 0), base_orientation(0, 0)));
                 }
 
 
-- 
2.43.0


From 99f61826e1201b24ceb46ebe8ec0e68bd7baa2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:49 +0000
Subject: [PATCH 33/37] fix: products of scalar Kronecker products can be
 stored in used matrices

---
 core/include/eigentools/blockmatrix_kronecker.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/include/eigentools/blockmatrix_kronecker.h b/core/include/eigentools/blockmatrix_kronecker.h
index 08cf696..90dc905 100644
--- a/core/include/eigentools/blockmatrix_kronecker.h
+++ b/core/include/eigentools/blockmatrix_kronecker.h
@@ -613,6 +613,8 @@ namespace etools
                                     "Sizes of matrices do not match.");
 
 
+                result.resize(num_blocks_vert_ * dbm.getBlockRowsNum(), dbm.getNumberOfColumns());
+
                 BlockMatrixBase<Eigen::PlainObjectBase<t_Derived> &,
                                 t_dbm_block_rows_num,
                                 t_dbm_block_cols_num,
@@ -831,6 +833,8 @@ namespace etools
 
 
 
+                result.resize(num_blocks_vert_ * dbm.getBlockRowsNum(), dbm.getNumberOfColumns());
+
                 BlockMatrixBase<Eigen::PlainObjectBase<t_Derived>   &,
                                 t_dbm_block_rows_num,
                                 t_dbm_block_cols_num,
@@ -882,6 +886,8 @@ namespace etools
                                     "Sizes of matrices do not match.");
 
 
+                result.resize(num_blocks_vert_ * dbm.getBlockRowsNum(), dbm.getNumberOfColumns());
+
                 BlockMatrixBase<    Eigen::PlainObjectBase<t_Derived> &,
                                     t_dbm_block_rows_num,
                                     t_dbm_block_cols_num,
-- 
2.43.0


From d3905238f3b9fe321abc9e795f9be575c3cc88a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:44 +0000
Subject: [PATCH 34/37] fix: reset all parameters of solvers to defaults

---
 bridges/QuadProgpp/interface/quadprogpp/solver.h | 1 +
 bridges/qpOASES/interface/qpoases/solver.h       | 1 +
 bridges/qpmad/interface/qpmad/solver.h           | 2 ++
 core/include/kktsolver.h                         | 1 +
 4 files changed, 5 insertions(+)

diff --git a/bridges/QuadProgpp/interface/quadprogpp/solver.h b/bridges/QuadProgpp/interface/quadprogpp/solver.h
index 62484f3..b374a76 100644
--- a/bridges/QuadProgpp/interface/quadprogpp/solver.h
+++ b/bridges/QuadProgpp/interface/quadprogpp/solver.h
@@ -33,6 +33,7 @@ namespace humoto
             public:
                 void setDefaults()
                 {
+                    humoto::SolverParametersBase::setDefaults();
                     regularization_factor_ = 0;
                 }
 
diff --git a/bridges/qpOASES/interface/qpoases/solver.h b/bridges/qpOASES/interface/qpoases/solver.h
index 6cf85a0..f1cb1c5 100644
--- a/bridges/qpOASES/interface/qpoases/solver.h
+++ b/bridges/qpOASES/interface/qpoases/solver.h
@@ -104,6 +104,7 @@ namespace humoto
             public:
                 void setDefaults()
                 {
+                    humoto::SolverParametersBase::setDefaults();
                     max_number_of_iterations_ = 1000;
                     max_cpu_time_ = 0.0;
                 }
diff --git a/bridges/qpmad/interface/qpmad/solver.h b/bridges/qpmad/interface/qpmad/solver.h
index d858a6e..0ce757c 100644
--- a/bridges/qpmad/interface/qpmad/solver.h
+++ b/bridges/qpmad/interface/qpmad/solver.h
@@ -41,6 +41,7 @@ namespace humoto
                     protected:
                         void setDefaults()
                         {
+                            ::qpmad::SolverParameters::operator=(::qpmad::SolverParameters());
                         }
 
                     public:
@@ -59,6 +60,7 @@ namespace humoto
             public:
                 void setDefaults()
                 {
+                    humoto::SolverParametersBase::setDefaults();
                     regularization_factor_ = 0;
                 }
 
diff --git a/core/include/kktsolver.h b/core/include/kktsolver.h
index 31ddbec..b91320b 100644
--- a/core/include/kktsolver.h
+++ b/core/include/kktsolver.h
@@ -66,6 +66,7 @@ namespace humoto
             public:
                 void setDefaults()
                 {
+                    humoto::SolverParametersBase::setDefaults();
                     solution_method_ = LU;
                     elimination_regularization_factor_ = 1e-08;
                 }
-- 
2.43.0


From 6c3879c4d2787016f5ff927847d861dc02a41b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:56 +0000
Subject: [PATCH 35/37] fix: check sizes of copied parts of active sets and
 violations

copyTo() wrote outside of the given location (or of the container) when the
size of the other container did not match it.
---
 core/include/humoto/active_set.h | 1 +
 core/include/humoto/violations.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/core/include/humoto/active_set.h b/core/include/humoto/active_set.h
index 3a47ba9..66e1652 100644
--- a/core/include/humoto/active_set.h
+++ b/core/include/humoto/active_set.h
@@ -134,6 +134,7 @@ namespace humoto
                         const ActiveSetConstraints  &other_active_set)
             {
                 HUMOTO_ASSERT(location.checkLength( size() ), "Incorrect location in an active set.");
+                HUMOTO_ASSERT(location.length_ == other_active_set.size(), "Incorrect location in an active set.");
 
                 std::copy(  other_active_set.data_.begin(),
                             other_active_set.data_.end(),
diff --git a/core/include/humoto/violations.h b/core/include/humoto/violations.h
index 00035ad..8ddda0e 100644
--- a/core/include/humoto/violations.h
+++ b/core/include/humoto/violations.h
@@ -147,6 +147,7 @@ namespace humoto
                         const ViolationsConstraints  &other_violations)
             {
                 HUMOTO_ASSERT(location.checkLength( size() ), "Incorrect location in a vector of violations.");
+                HUMOTO_ASSERT(location.length_ == other_violations.size(), "Incorrect location in a vector of violations.");
 
                 data_.segment(location.offset_, location.length_) = other_violations.data_;
                 lower_.segment(location.offset_, location.length_) = other_violations.lower_;
-- 
2.43.0


From c5a3355a0e8a2a94f1c4431bb0a5b235bf64d34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:56 +0000
Subject: [PATCH 36/37] fix: reject unknown names of links

RBDL returns a special id for unknown names, which was used as an index.
---
 bridges/rbdl/interface/rbdl/model.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bridges/rbdl/interface/rbdl/model.h b/bridges/rbdl/interface/rbdl/model.h
index 3854928..569536f 100644
--- a/bridges/rbdl/interface/rbdl/model.h
+++ b/bridges/rbdl/interface/rbdl/model.h
@@ -741,7 +741,10 @@ namespace humoto
                  */
                 std::size_t getLinkId(const std::string   &string_id) const
                 {
-                    return (rbdl_model_.GetBodyId(string_id.c_str()));
+                    const unsigned int id = rbdl_model_.GetBodyId(string_id.c_str());
+                    HUMOTO_ASSERT(  std::numeric_limits<unsigned int>::max() != id,
+                                    std::string("Unknown link '") + string_id + "'.");
+                    return (id);
                 }
 
 
-- 
2.43.0


From 2b4457c6bec8a1f165157a190151f50fa6a0ee99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:56 +0000
Subject: [PATCH 37/37] fix: masses and centers of mass of fixed links

Ids of fixed links cannot be used as indices of movable bodies.
---
 bridges/rbdl/interface/rbdl/model.h | 58 +++++++++++++++++++++++++----
 1 file changed, 50 insertions(+), 8 deletions(-)

diff --git a/bridges/rbdl/interface/rbdl/model.h b/bridges/rbdl/interface/rbdl/model.h
index 569536f..3f7deb9 100644
--- a/bridges/rbdl/interface/rbdl/model.h
+++ b/bridges/rbdl/interface/rbdl/model.h
@@ -190,7 +190,7 @@ namespace humoto
                 {
                     LinkId id = getLinkId(link_string_id);
                     boost::shared_ptr<TagPoint> ptr(new TagPoint(   id,
-                                                                    rbdl_model_.mBodies[id].mCenterOfMass));
+                                                                    getLinkCoM(id)));
                     return(ptr);
                 }
 
@@ -213,7 +213,7 @@ namespace humoto
                     {
                         link_ids[i] = getLinkId(link_string_ids[i]);
 
-                        total_mass += rbdl_model_.mBodies[link_ids[i]].mMass;
+                        total_mass += getLinkMass(link_ids[i]);
                     }
 
                     boost::shared_ptr<TagPartialCoM> ptr(new  TagPartialCoM(link_ids, total_mass));
@@ -252,8 +252,8 @@ namespace humoto
                         LinkId  id = tag->link_ids_[i];
 
                         com_position.noalias() +=
-                            rbdl_model_.mBodies[id].mMass
-                            * getPointTagPosition(id, rbdl_model_.mBodies[id].mCenterOfMass);
+                            getLinkMass(id)
+                            * getPointTagPosition(id, getLinkCoM(id));
 
                         /*
                         com_position.noalias() +=
@@ -426,7 +426,7 @@ namespace humoto
                  */
                 double getTagMass(const TagLinkPtr  tag) const
                 {
-                    return (rbdl_model_.mBodies[tag->link_id_].mMass);
+                    return (getLinkMass(tag->link_id_));
                 }
 
 
@@ -448,15 +448,15 @@ namespace humoto
                     {
                         LinkId id = tag->link_ids_[i];
 
-                        getTagJacobian<SpatialType::TRANSLATION>(jacobian_i, id, rbdl_model_.mBodies[id].mCenterOfMass);
+                        getTagJacobian<SpatialType::TRANSLATION>(jacobian_i, id, getLinkCoM(id));
 
                         if (i == 0)
                         {
-                            jacobian.noalias() = jacobian_i * rbdl_model_.mBodies[id].mMass;
+                            jacobian.noalias() = jacobian_i * getLinkMass(id);
                         }
                         else
                         {
-                            jacobian.noalias() += jacobian_i * rbdl_model_.mBodies[id].mMass;
+                            jacobian.noalias() += jacobian_i * getLinkMass(id);
                         }
                     }
 
@@ -749,6 +749,48 @@ namespace humoto
 
 
 
+                /**
+                 * @brief Mass of a link
+                 *
+                 * @param[in] id
+                 *
+                 * @return mass
+                 */
+                double getLinkMass(const LinkId id) const
+                {
+                    if (isLinkFixed(id))
+                    {
+                        return (rbdl_model_.mFixedBodies[id - rbdl_model_.fixed_body_discriminator].mMass);
+                    }
+                    else
+                    {
+                        return (rbdl_model_.mBodies[id].mMass);
+                    }
+                }
+
+
+
+                /**
+                 * @brief Center of mass of a link in the frame of this link
+                 *
+                 * @param[in] id
+                 *
+                 * @return position of the center of mass
+                 */
+                etools::Vector3 getLinkCoM(const LinkId id) const
+                {
+                    if (isLinkFixed(id))
+                    {
+                        return (rbdl_model_.mFixedBodies[id - rbdl_model_.fixed_body_discriminator].mCenterOfMass);
+                    }
+                    else
+                    {
+                        return (rbdl_model_.mBodies[id].mCenterOfMass);
+                    }
+                }
+
+
+
                 /**
                  * @brief Express local position in root frame
                  *
-- 
2.43.0

