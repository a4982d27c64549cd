From 081324e21c5330fd3e51e5a40d6cdca3a0fd2aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:05 +0000
Subject: [PATCH 01/51] fix: copy and swap the straight-line program and the
 method settings of a System

---
 core/src/system/system.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index c5598d9..894fc9b 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -85,6 +85,10 @@ namespace bertini
 
 		swap(a.assume_uniform_precision_,b.assume_uniform_precision_);
 		swap(a.eval_method_,b.eval_method_);
+		swap(a.deriv_method_,b.deriv_method_);
+		swap(a.auto_simplify_,b.auto_simplify_);
+		swap(a.slp_,b.slp_);
+		swap(a.current_variable_values_,b.current_variable_values_);
 
 		swap(a.precision_,b.precision_);
 		swap(a.is_patched_,b.is_patched_);
@@ -113,6 +117,9 @@ namespace bertini
 
 		assume_uniform_precision_ = other.assume_uniform_precision_;
 		eval_method_ = other.eval_method_;
+		deriv_method_ = other.deriv_method_;
+		auto_simplify_ = other.auto_simplify_;
+		slp_ = other.slp_;
 
 		time_order_of_variable_groups_ = other.time_order_of_variable_groups_;
 
-- 
2.43.0


From 4f2aa0180be80161c431781b2be00e8769986985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:05 +0000
Subject: [PATCH 02/51] fix: mark a System as needing differentiation after
 every edit

---
 core/include/bertini2/system/system.hpp |  2 ++
 core/src/system/system.cpp              | 11 +++++++++++
 2 files changed, 13 insertions(+)

diff --git a/core/include/bertini2/system/system.hpp b/core/include/bertini2/system/system.hpp
index b19b93d..3fd775d 100644
--- a/core/include/bertini2/system/system.hpp
+++ b/core/include/bertini2/system/system.hpp
@@ -1583,6 +1583,7 @@ namespace bertini {
 		void SetEvalMethod(EvalMethod method)
 		{
 			eval_method_ = method;
+			is_differentiated_ = false;
 		}
 
 		/**  
@@ -1602,6 +1603,7 @@ namespace bertini {
 		void SetDerivMethod(DerivMethod method)
 		{
 			deriv_method_ = method;
+			is_differentiated_ = false;
 		}
 
 		/**  
diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index 894fc9b..c535117 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -1014,6 +1014,7 @@ namespace bertini
 		}
 
 		swap(functions_, re_ordered_functions);
+		is_differentiated_ = false;
 	}
 
 
@@ -1041,6 +1042,7 @@ namespace bertini
 		}
 
 		swap(functions_, re_ordered_functions);
+		is_differentiated_ = false;
 	}
 
 
@@ -1066,8 +1068,14 @@ namespace bertini
 		hom_variable_groups_.clear();
 		homogenizing_variables_.clear();
 
+		time_order_of_variable_groups_.clear();
+
 		path_variable_.reset();
 		have_path_variable_ = false;
+
+		is_differentiated_ = false;
+		have_ordering_ = false;
+		is_patched_ = false;
 	}
 
 
@@ -1329,6 +1337,8 @@ namespace bertini
 		for (auto iter=functions_.begin(); iter!=functions_.end(); iter++)
 			(*iter)->SetRoot( (*(rhs.functions_.begin()+(iter-functions_.begin())))->EntryNode() + (*iter)->EntryNode());
 
+		is_differentiated_ = false;
+
 		return *this;
 	}
 
@@ -1344,6 +1354,7 @@ namespace bertini
 		{
 			(*iter)->SetRoot( N * (*iter)->EntryNode());
 		}
+		is_differentiated_ = false;
 		return *this;
 	}
 
-- 
2.43.0


From 7b19c93e131faeb07905b581469c68b43336d473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:30 +0000
Subject: [PATCH 03/51] fix: fetching the derivatives of a System no longer
 marks it as differentiated for another method

---
 core/src/system/system.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index c535117..adf1787 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -342,6 +342,8 @@ namespace bertini
 			}
 		}
 
+		is_differentiated_ = true;
+
 
 		if (auto_simplify_)
 			this->SimplifyDerivatives();
@@ -370,8 +372,6 @@ namespace bertini
 		jacobian_.resize(num_functions);
 		for (int ii = 0; ii < num_functions; ++ii)
 			jacobian_[ii] = Jacobian::Make(functions_[ii]->Differentiate());
-
-		is_differentiated_ = true;
 	}
 
 	void System::DifferentiateUsingDerivatives() const
@@ -393,8 +393,6 @@ namespace bertini
 				for (int ii = 0; ii < num_functions; ++ii)
 					time_derivatives_[ii] = Function::Make(functions_[ii]->Differentiate(t));
 		}
-
-		is_differentiated_ = true;
 	}
 
 	std::vector< Nd > System::GetSpaceDerivatives() const
-- 
2.43.0


From fdfa2773085b9db35a29e467851394df8b042b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:30 +0000
Subject: [PATCH 04/51] fix: evaluate a System only by its selected method,
 with a current straight-line program

---
 core/include/bertini2/system/system.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/include/bertini2/system/system.hpp b/core/include/bertini2/system/system.hpp
index 3fd775d..724049e 100644
--- a/core/include/bertini2/system/system.hpp
+++ b/core/include/bertini2/system/system.hpp
@@ -286,10 +286,13 @@ namespace bertini {
 					for (auto iter=functions_.begin(); iter!=functions_.end(); iter++, counter++) {
 						(*iter)->EvalInPlace<T>(function_values(counter));
 					}
+					break;
 				}
 
 				case EvalMethod::SLP:
 					{
+						if (!is_differentiated_)
+							Differentiate();
 						slp_.GetFuncValsInPlace<T>(function_values);
 					}
 			}
-- 
2.43.0


From 641ba3807504e2281c55b93920eedabda85fc9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:30 +0000
Subject: [PATCH 05/51] fix: Concatenate copies the patch of the patched system

---
 core/src/system/system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index adf1787..502f6b4 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -1384,7 +1384,7 @@ namespace bertini
 				throw std::runtime_error("concatenating systems with incompatible patches");
 
 		if (sys2.IsPatched() && !sys1.IsPatched())
-			sys1.CopyPatches(sys1);
+			sys1.CopyPatches(sys2);
 		// the other cases are automatically covered.  sys1 already patched, or neither patched.
 
 		for (unsigned ii(0); ii<sys2.NumNaturalFunctions(); ++ii)
-- 
2.43.0


From ce65c7e26776cd510bef62fb1857bd3dfa2e63ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:30 +0000
Subject: [PATCH 06/51] fix: a System whose patch was dropped has no patches

---
 core/include/bertini2/system/system.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/bertini2/system/system.hpp b/core/include/bertini2/system/system.hpp
index 724049e..3170673 100644
--- a/core/include/bertini2/system/system.hpp
+++ b/core/include/bertini2/system/system.hpp
@@ -874,7 +874,7 @@ namespace bertini {
 		*/
 		size_t NumPatches() const
 		{
-			return patch_.NumVariableGroups();
+			return IsPatched() ? patch_.NumVariableGroups() : 0;
 		}
 
 		/**
-- 
2.43.0


From d67bbd631d5282e4b484ed284585e09115e04df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:11 +0000
Subject: [PATCH 07/51] fix: a straight-line program tracks per numeric type
 whether it is evaluated

---
 .../bertini2/system/straight_line_program.hpp | 20 ++++++++++++-------
 core/src/system/straight_line_program.cpp     |  5 +++--
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/core/include/bertini2/system/straight_line_program.hpp b/core/include/bertini2/system/straight_line_program.hpp
index a91ff43..1dfeaab 100644
--- a/core/include/bertini2/system/straight_line_program.hpp
+++ b/core/include/bertini2/system/straight_line_program.hpp
@@ -355,7 +355,7 @@ namespace bertini {
 		 */
 		template<typename NumT>
 		void GetFuncValsInPlace(Vec<NumT> & result) const{
-			if (!is_evaluated_)
+			if (!IsEvaluated<NumT>())
 				this->EvalFunctions<NumT>();
 
 			auto& memory =  std::get<std::vector<NumT>>(memory_);
@@ -379,7 +379,7 @@ namespace bertini {
 
 		template<typename NumT>
 		void GetJacobianInPlace(Mat<NumT> & result) const{
-			if (!is_evaluated_)
+			if (!IsEvaluated<NumT>())
 				this->EvalJacobian<NumT>();
 
 			auto& memory =  std::get<std::vector<NumT>>(memory_);
@@ -405,7 +405,7 @@ namespace bertini {
 
 		template<typename NumT>
 		void GetTimeDerivInPlace(Vec<NumT> & result) const{
-			if (!is_evaluated_)
+			if (!IsEvaluated<NumT>())
 				this->EvalTimeDeriv<NumT>();
 
 			auto& memory =  std::get<std::vector<NumT>>(memory_);
@@ -520,7 +520,7 @@ namespace bertini {
 				//assign  to memory
 				memory[ii + input_locations_.Variables] = variable_values(ii);
 			}
-			is_evaluated_ = false;
+			IsEvaluated<NumT>() = false;
 		}
 
 		/**
@@ -549,7 +549,7 @@ namespace bertini {
 			auto& memory =  std::get<std::vector<ComplexT>>(memory_); // unpack for local reference
 
 			memory[input_locations_.Time] = time;
-			is_evaluated_ = false;
+			IsEvaluated<ComplexT>() = false;
 		}
 
 
@@ -591,6 +591,11 @@ namespace bertini {
 			return std::get<std::vector<NumT>>(this->memory_);
 		}
 
+		template<typename NumT>
+		bool& IsEvaluated() const{
+			return std::get<std::is_same<NumT,dbl_complex>::value ? 0 : 1>(this->is_evaluated_);
+		}
+
 
 		template<typename NumT>
 		void CopyNumbersIntoMemory() const;
@@ -609,7 +614,7 @@ namespace bertini {
 		std::vector<size_t> instructions_; //< The instructions.  The opcodes are  stored as size_t's, as well as the locations of operands and results.
 		std::vector< std::pair<Nd,size_t> > true_values_of_numbers_; //< the size_t is where in memory to downsample to.
 
-		mutable bool is_evaluated_ = false;
+		mutable std::tuple<bool, bool> is_evaluated_{false, false}; //< Is the memory evaluated at its current inputs?  One flag per numeric type, in the order of memory_.
 
 
 
@@ -632,7 +637,8 @@ namespace bertini {
 			ar & instructions_;
 			ar & true_values_of_numbers_;
 
-			ar & is_evaluated_;
+			ar & std::get<0>(is_evaluated_);
+			ar & std::get<1>(is_evaluated_);
 		}
 
 	};
diff --git a/core/src/system/straight_line_program.cpp b/core/src/system/straight_line_program.cpp
index 176ec8f..1dbb962 100644
--- a/core/src/system/straight_line_program.cpp
+++ b/core/src/system/straight_line_program.cpp
@@ -85,6 +85,7 @@ namespace bertini{
 				Precision(n, new_precision);
 
 			this->precision_ = new_precision;
+			IsEvaluated<mpfr_complex>() = false;
 		}
 
 
@@ -216,7 +217,7 @@ namespace bertini{
 #endif
 
 
-		if (is_evaluated_)
+		if (IsEvaluated<NumT>())
 			return;
 
 		for (int ii = 0; ii<instructions_.size();/*the increment is done at end of loop depending on arity */) {
@@ -308,7 +309,7 @@ namespace bertini{
 			}
 		} // for loop around operations
 
-		is_evaluated_ = true;
+		IsEvaluated<NumT>() = true;
 	}
 
 	template void StraightLineProgram::Eval<dbl_complex>() const;
-- 
2.43.0


From 2dec470a8891e5e9d30093c3343130ed347b22c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:26 +0000
Subject: [PATCH 08/51] fix: CoefficientBound evaluates the Jacobian at its own
 random points

---
 core/src/system/system.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index 502f6b4..5d6f33f 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -953,6 +953,7 @@ namespace bertini
 			else
 				f_vals = Eval(randy);
 			
+			ResetJacobian();
 			Mat<CT> dh_dx = Jacobian<CT>();
 			
 			bound = max(f_vals.array().abs().maxCoeff(),
-- 
2.43.0


From 1410c03c4d8726e4994aa8d1e5b579689accfaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:36 +0000
Subject: [PATCH 09/51] fix: a copied Patch keeps the working precision of the
 original

---
 core/include/bertini2/system/patch.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/include/bertini2/system/patch.hpp b/core/include/bertini2/system/patch.hpp
index a98fb82..435b9de 100644
--- a/core/include/bertini2/system/patch.hpp
+++ b/core/include/bertini2/system/patch.hpp
@@ -102,7 +102,7 @@ namespace bertini {
 		Patch(Patch const& other)
 		{	
 			variable_group_sizes_ = other.variable_group_sizes_;
-			precision_ = DefaultPrecision();
+			precision_ = other.precision_;
 
 			// a little shorthand unpacking the tuple
 			std::vector<Vec<mpfr_complex> >& coefficients_mpfr = std::get<std::vector<Vec<mpfr_complex> > >(this->coefficients_working_);
@@ -128,6 +128,7 @@ namespace bertini {
 
 					coefficients_dbl[ii](jj) = dbl(coefficients_highest_precision_[ii](jj));
 					coefficients_mpfr[ii](jj) = mpfr_complex(coefficients_highest_precision_[ii](jj));
+					coefficients_mpfr[ii](jj).precision(precision_);
 
 					assert(coefficients_highest_precision_[ii](jj) == other.coefficients_highest_precision_[ii](jj));
 				}
-- 
2.43.0


From 512e76a75717cb092c4dd693c871673b69d35f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:09 +0000
Subject: [PATCH 10/51] fix: saving a Differential keeps the variable it
 belongs to

---
 .../function_tree/symbols/differential.hpp     | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/core/include/bertini2/function_tree/symbols/differential.hpp b/core/include/bertini2/function_tree/symbols/differential.hpp
index 1406f27..b51fc7f 100644
--- a/core/include/bertini2/function_tree/symbols/differential.hpp
+++ b/core/include/bertini2/function_tree/symbols/differential.hpp
@@ -147,21 +147,15 @@ namespace node{
 		friend class boost::serialization::access;
 		
 		template<class Archive>
-		void save(Archive & ar, const unsigned int version) const
+		void serialize(Archive & ar, const unsigned int version)
 		{
 			ar & boost::serialization::base_object<NamedSymbol>(*this);
-			ar & differential_variable_;
-			// ar & const_cast<std::shared_ptr<const Variable> >(differential_variable_);
-		}
-		
-		template<class Archive>
-		void load(Archive & ar, const unsigned int version)
-		{
-			ar & boost::serialization::base_object<NamedSymbol>(*this);
-			ar & std::const_pointer_cast<Variable>(differential_variable_);
+
+			// the archives do not know pointers to const
+			auto v = std::const_pointer_cast<Variable>(differential_variable_);
+			ar & v;
+			differential_variable_ = v;
 		}
-		
-		// BOOST_SERIALIZATION_SPLIT_MEMBER()
 
 	};
 
-- 
2.43.0


From 03592d6e210a1e67b316c62bb9c9d63930b774f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:09 +0000
Subject: [PATCH 11/51] fix: register the logarithm node for serialization
 through base pointers

---
 core/include/bertini2/function_tree.hpp | 2 ++
 core/src/function_tree/node.cpp         | 1 +
 2 files changed, 3 insertions(+)

diff --git a/core/include/bertini2/function_tree.hpp b/core/include/bertini2/function_tree.hpp
index 320ef12..c422f52 100644
--- a/core/include/bertini2/function_tree.hpp
+++ b/core/include/bertini2/function_tree.hpp
@@ -101,6 +101,7 @@ BOOST_CLASS_EXPORT_KEY(bertini::node::PowerOperator)
 BOOST_CLASS_EXPORT_KEY(bertini::node::IntegerPowerOperator)
 BOOST_CLASS_EXPORT_KEY(bertini::node::SqrtOperator)
 BOOST_CLASS_EXPORT_KEY(bertini::node::ExpOperator)
+BOOST_CLASS_EXPORT_KEY(bertini::node::LogOperator)
 
 
 
@@ -142,6 +143,7 @@ BOOST_CLASS_TRACKING(bertini::node::PowerOperator, boost::serialization::track_a
 BOOST_CLASS_TRACKING(bertini::node::IntegerPowerOperator, boost::serialization::track_always)
 BOOST_CLASS_TRACKING(bertini::node::SqrtOperator, boost::serialization::track_always)
 BOOST_CLASS_TRACKING(bertini::node::ExpOperator, boost::serialization::track_always)
+BOOST_CLASS_TRACKING(bertini::node::LogOperator, boost::serialization::track_always)
 
 
 
diff --git a/core/src/function_tree/node.cpp b/core/src/function_tree/node.cpp
index 3542635..6540e61 100644
--- a/core/src/function_tree/node.cpp
+++ b/core/src/function_tree/node.cpp
@@ -54,6 +54,7 @@ BOOST_CLASS_EXPORT_IMPLEMENT(bertini::node::PowerOperator)
 BOOST_CLASS_EXPORT_IMPLEMENT(bertini::node::IntegerPowerOperator)
 BOOST_CLASS_EXPORT_IMPLEMENT(bertini::node::SqrtOperator)
 BOOST_CLASS_EXPORT_IMPLEMENT(bertini::node::ExpOperator)
+BOOST_CLASS_EXPORT_IMPLEMENT(bertini::node::LogOperator)
 
 
 
-- 
2.43.0


From 5352d2aa0fe71d3819f883587b485893eb04d62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:09 +0000
Subject: [PATCH 12/51] fix: saving a LinearSlice keeps its constants,
 dimension and homogeneity

---
 core/include/bertini2/system/slice.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/include/bertini2/system/slice.hpp b/core/include/bertini2/system/slice.hpp
index 38a26b2..1a28d4b 100644
--- a/core/include/bertini2/system/slice.hpp
+++ b/core/include/bertini2/system/slice.hpp
@@ -325,7 +325,15 @@ namespace bertini {
 
 			ar & std::get<0>(coefficients_working_);
 			ar & std::get<1>(coefficients_working_);
+
+			ar & constants_highest_precision_;
+
+			ar & std::get<0>(constants_working_);
+			ar & std::get<1>(constants_working_);
+
 			ar & sliced_vars_;
+			ar & num_dims_sliced_;
+			ar & is_homogeneous_;
 		}
 
 		friend std::ostream& operator<<(std::ostream&, LinearSlice const&);
-- 
2.43.0


From 35df0ab6be680eb5090e19bd618cacba7d3ee1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:09 +0000
Subject: [PATCH 13/51] fix: a restored User start system owns its system and
 reads back both solution containers

---
 core/include/bertini2/system/start/user.hpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/core/include/bertini2/system/start/user.hpp b/core/include/bertini2/system/start/user.hpp
index 647a47a..b88da49 100644
--- a/core/include/bertini2/system/start/user.hpp
+++ b/core/include/bertini2/system/start/user.hpp
@@ -109,7 +109,7 @@ namespace bertini
 				ar & boost::serialization::base_object<StartSystem>(*this);
 			}
 
-			const bertini::System& user_system_;
+			const bertini::System user_system_;
 			std::tuple<SampCont<dbl>, SampCont<mpfr_complex>> solns_;
 			bool solns_in_dbl_;
 		};
@@ -141,17 +141,15 @@ inline void load_construct_data(
     bool solns_in_dbl;
     ar >> solns_in_dbl;
 
+    bertini::SampCont<bertini::dbl> solns_dbl;
+    ar >> solns_dbl;
+
+    bertini::SampCont<bertini::mpfr_complex> solns_mp;
+    ar >> solns_mp;
+
     if (solns_in_dbl)
-    {
-    	bertini::SampCont<bertini::dbl> solns;
-    	ar >> solns;
-    	::new(t)bertini::start_system::User(sys, solns);
-    }
+    	::new(t)bertini::start_system::User(sys, solns_dbl);
 	else
-	{
-		bertini::SampCont<bertini::mpfr_complex> solns;
-		ar >> solns;
-		::new(t)bertini::start_system::User(sys, solns);
-	}
+		::new(t)bertini::start_system::User(sys, solns_mp);
 }
 }}
-- 
2.43.0


From 212ba76a90afd9c2c1cdd9962e9dc05a98707b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:29 +0000
Subject: [PATCH 14/51] fix: linear product nodes save their coefficients and
 variables and are registered

---
 .../function_tree/symbols/linear_product.hpp  | 34 ++++++++++++++++++-
 core/src/function_tree/node.cpp               |  2 ++
 2 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/core/include/bertini2/function_tree/symbols/linear_product.hpp b/core/include/bertini2/function_tree/symbols/linear_product.hpp
index 43a0721..c51fd25 100644
--- a/core/include/bertini2/function_tree/symbols/linear_product.hpp
+++ b/core/include/bertini2/function_tree/symbols/linear_product.hpp
@@ -729,6 +729,24 @@ namespace  bertini {
 			template <typename Archive>
 			void serialize(Archive& ar, const unsigned version) {
 				ar & boost::serialization::base_object<Symbol>(*this);
+
+				ar & coeffs_rat_real_;
+				ar & coeffs_rat_imag_;
+				ar & std::get<0>(coeffs_);
+				ar & std::get<1>(coeffs_);
+
+				ar & variables_;
+				ar & hom_variable_;
+				ar & num_factors_;
+				ar & num_variables_;
+				ar & is_rational_coeffs_;
+				ar & is_homogenized_;
+				ar & is_hom_vars_;
+
+				ar & temp_var_d_;
+				ar & temp_var_mp_;
+				ar & temp_sum_mp_;
+				ar & temp_sum_d_;
 			}
 			
 			
@@ -1095,7 +1113,16 @@ namespace  bertini {
 			
 			template <typename Archive>
 			void serialize(Archive& ar, const unsigned version) {
-				ar & boost::serialization::base_object<NaryOperator>(*this);
+				ar & boost::serialization::base_object<Symbol>(*this);
+
+				ar & coeffs_rat_real_;
+				ar & coeffs_rat_imag_;
+				ar & std::get<0>(coeffs_);
+				ar & std::get<1>(coeffs_);
+
+				ar & variables_;
+				ar & hom_variable_;
+				ar & num_variables_;
 			}
 			
 			
@@ -1121,6 +1148,11 @@ namespace  bertini {
 } // re: namespace bertini
 
 
+BOOST_CLASS_EXPORT_KEY(bertini::node::LinearProduct)
+BOOST_CLASS_EXPORT_KEY(bertini::node::DiffLinear)
+
+BOOST_CLASS_TRACKING(bertini::node::LinearProduct, boost::serialization::track_always)
+BOOST_CLASS_TRACKING(bertini::node::DiffLinear, boost::serialization::track_always)
 
 
 #endif
diff --git a/core/src/function_tree/node.cpp b/core/src/function_tree/node.cpp
index 6540e61..27b7853 100644
--- a/core/src/function_tree/node.cpp
+++ b/core/src/function_tree/node.cpp
@@ -28,6 +28,8 @@
 
 BOOST_CLASS_EXPORT_IMPLEMENT(bertini::node::Variable)
 BOOST_CLASS_EXPORT_IMPLEMENT(bertini::node::Differential)
+BOOST_CLASS_EXPORT_IMPLEMENT(bertini::node::LinearProduct)
+BOOST_CLASS_EXPORT_IMPLEMENT(bertini::node::DiffLinear)
 
 BOOST_CLASS_EXPORT_IMPLEMENT(bertini::node::Float)
 BOOST_CLASS_EXPORT_IMPLEMENT(bertini::node::Integer)
-- 
2.43.0


From 2fc2af042332bd6a4d1e579b021c1bd8e6a11b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:29 +0000
Subject: [PATCH 15/51] fix: saving an MHomogeneous start system keeps its
 partitions and linear products

---
 core/include/bertini2/system/start/mhom.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/include/bertini2/system/start/mhom.hpp b/core/include/bertini2/system/start/mhom.hpp
index 7bea77a..24a7348 100644
--- a/core/include/bertini2/system/start/mhom.hpp
+++ b/core/include/bertini2/system/start/mhom.hpp
@@ -136,6 +136,11 @@ namespace bertini
 			{
 				ar & boost::serialization::base_object<StartSystem>(*this);
 				ar & degrees_;
+				ar & degree_matrix_;
+				ar & valid_partitions_;
+				ar & var_groups_;
+				ar & linprod_matrix_;
+				ar & variable_cols_;
 			}
 
 		};
-- 
2.43.0


From 0313756f138be239a2ef4e0bf2ad623bf1688ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:04 +0000
Subject: [PATCH 16/51] fix: generating an m-homogeneous start point no longer
 writes to variables that may not exist

---
 core/src/system/start/mhom.cpp | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/core/src/system/start/mhom.cpp b/core/src/system/start/mhom.cpp
index e237a43..241fc82 100644
--- a/core/src/system/start/mhom.cpp
+++ b/core/src/system/start/mhom.cpp
@@ -404,16 +404,6 @@ namespace bertini
 			}
 			
 			start_point = A.partialPivLu().solve(b);
-			
-			
-			var_groups_[0][0]->set_current_value(start_point(0));
-			var_groups_[0][1]->set_current_value(start_point(1));
-			
-			std::shared_ptr<node::Node> f = Function(0);
-			// !!! superfluous line?
-			
-			
-
 		}
 		
 		
-- 
2.43.0


From 7f2cb64f71ac79b9fee02d5b82977530c4c04a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:09 +0000
Subject: [PATCH 17/51] fix: a refused predictor choice leaves the predictor
 unchanged

---
 core/include/bertini2/trackers/explicit_predictors.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/bertini2/trackers/explicit_predictors.hpp b/core/include/bertini2/trackers/explicit_predictors.hpp
index 9f21863..347eb82 100644
--- a/core/include/bertini2/trackers/explicit_predictors.hpp
+++ b/core/include/bertini2/trackers/explicit_predictors.hpp
@@ -237,8 +237,6 @@ namespace bertini{
 				 */
 				void PredictorMethod(Predictor method)
 				{
-					predictor_ = method;
-					p_ = predict::Order(method);
 					switch(method)
 					{
 						case Predictor::Constant:
@@ -342,6 +340,8 @@ namespace bertini{
 							throw std::runtime_error("incompatible predictor choice in ExplicitPredict");
 						}
 					}
+					predictor_ = method;
+					p_ = predict::Order(method);
 					ResizeK();
 				}; // re: PredictorMethod
 				
-- 
2.43.0


From 7a97c6688b0815a3d09cd313dace97566b1a53b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:24 +0000
Subject: [PATCH 18/51] fix: product rule keeps the term of a factor whose
 derivative is the number 1

---
 core/src/function_tree/operators/arithmetic.cpp | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/core/src/function_tree/operators/arithmetic.cpp b/core/src/function_tree/operators/arithmetic.cpp
index 0fde38a..69fdc04 100644
--- a/core/src/function_tree/operators/arithmetic.cpp
+++ b/core/src/function_tree/operators/arithmetic.cpp
@@ -739,13 +739,6 @@ std::shared_ptr<Node> MultOperator::Differentiate(std::shared_ptr<Variable> cons
 				term_ii->AddOperand(operands_[jj],mult_or_div_[jj]);
 		}
 		
-		// and then either 1. multiply it against the current derivative, or 2. invoke the quotient rule.
-		if (is_it_a_number)
-			if (is_it_a_number->Eval<dbl>()==dbl(1.0))
-				continue;
-		
-		// if the derivative of the term under consideration is equal to 1, no need to go on.  already have the product we need.
-		
 		// if is division, need this for the quotient rule
 		if ( !(mult_or_div_[ii]) )
 			term_ii->AddOperand(pow(operands_[ii],2),false); // draw a line and square below
-- 
2.43.0


From c0238bc9847769f3bf037a24d24e81bd9c26c0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:24 +0000
Subject: [PATCH 19/51] fix: derivative of a power accounts for a non-constant
 exponent

---
 core/src/function_tree/operators/arithmetic.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/src/function_tree/operators/arithmetic.cpp b/core/src/function_tree/operators/arithmetic.cpp
index 69fdc04..7b0e722 100644
--- a/core/src/function_tree/operators/arithmetic.cpp
+++ b/core/src/function_tree/operators/arithmetic.cpp
@@ -951,7 +951,14 @@ std::shared_ptr<Node> PowerOperator::Differentiate(std::shared_ptr<Variable> con
 	auto ret_mult = MultOperator::Make(base_->Differentiate(v));
 	ret_mult->AddOperand(exponent_);
 	ret_mult->AddOperand(PowerOperator::Make(base_, exp_minus_one));
-	return ret_mult;
+
+	if (exponent_->Degree(v)==0) // the exponent does not depend on the variable
+		return ret_mult;
+
+	auto exp_term = MultOperator::Make(exponent_->Differentiate(v));
+	exp_term->AddOperand(LogOperator::Make(base_));
+	exp_term->AddOperand(PowerOperator::Make(base_, exponent_));
+	return SumOperator::Make(ret_mult, exp_term);
 }
 
 
-- 
2.43.0


From a8ce097a42cdc4eee909b6639d0d5870850985df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:24 +0000
Subject: [PATCH 20/51] fix: differential of a linear uses the homogenizing
 variable's own coefficient

---
 .../include/bertini2/function_tree/symbols/linear_product.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/bertini2/function_tree/symbols/linear_product.hpp b/core/include/bertini2/function_tree/symbols/linear_product.hpp
index c51fd25..b6f0c77 100644
--- a/core/include/bertini2/function_tree/symbols/linear_product.hpp
+++ b/core/include/bertini2/function_tree/symbols/linear_product.hpp
@@ -1003,7 +1003,7 @@ namespace  bertini {
 				if(diff_variable == hom_variable_)
 				{
 					auto& coeff_ref = std::get<Mat<dbl>>(coeffs_);
-					evaluation_value = coeff_ref(0,variables_.size()-1);
+					evaluation_value = coeff_ref(0,variables_.size());
 					return;
 				}
 				
@@ -1050,7 +1050,7 @@ namespace  bertini {
 				if(diff_variable == hom_variable_)
 				{
 					auto& coeff_ref = std::get<Mat<mpfr_complex>>(coeffs_);
-					evaluation_value = coeff_ref(0,variables_.size()-1);
+					evaluation_value = coeff_ref(0,variables_.size());
 					return;
 				}
 				
-- 
2.43.0


From 59db1357cd08e3d0f943037c2e24a506f016ab41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:24 +0000
Subject: [PATCH 21/51] fix: derivative of a linear product with respect to a
 given variable is not zero

---
 core/src/function_tree/linear_product.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/core/src/function_tree/linear_product.cpp b/core/src/function_tree/linear_product.cpp
index 233a208..a6b1e91 100644
--- a/core/src/function_tree/linear_product.cpp
+++ b/core/src/function_tree/linear_product.cpp
@@ -61,9 +61,24 @@ namespace  bertini {
 		{
 			std::shared_ptr<SumOperator> ret_sum;
 			std::vector<size_t> indices;  //Those factors that are not differentiated in one particular term of the differentiated result.
+
+			// the derivative of one factor: its differential if no variable is given, else the coefficient of the variable
+			auto diff_factor = [this, &v](size_t ii) -> std::shared_ptr<Node>
+			{
+				if (!v)
+					return DiffLinear::Make(GetLinears(ii));
+
+				size_t col = std::find(variables_.begin(), variables_.end(), v) - variables_.begin();
+				if (col == variables_.size() && hom_variable_ != v)
+					return Integer::Make(0);
+
+				if (is_rational_coeffs_)
+					return Rational::Make(coeffs_rat_real_(ii,col), coeffs_rat_imag_(ii,col));
+				return Float::Make(std::get<Mat<mpfr_complex>>(coeffs_)(ii,col));
+			};
             
 			// First term of product rule
-			std::shared_ptr<MultOperator> temp_mult = MultOperator::Make(DiffLinear::Make(GetLinears(0)));
+			std::shared_ptr<MultOperator> temp_mult = MultOperator::Make(diff_factor(0));
 			for(int ii = 1; ii < num_factors_; ++ii)
 			{
 				indices.push_back(ii);  // Indices 1 to num_factors-1
@@ -76,7 +91,7 @@ namespace  bertini {
 			// Rest of the factors
 			for(int ii = 1; ii < num_factors_; ++ii)
 			{
-				temp_mult = MultOperator::Make(DiffLinear::Make(GetLinears(ii)));
+				temp_mult = MultOperator::Make(diff_factor(ii));
 				indices.clear();
 				for(int jj = 0; jj < num_factors_ ; ++jj)
 				{
-- 
2.43.0


From 0866659ccbc7670057da112cdf8b083f11e162ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:37 +0000
Subject: [PATCH 22/51] fix: straight line programs compute a top-level
 function before other functions read it

---
 core/src/system/straight_line_program.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/core/src/system/straight_line_program.cpp b/core/src/system/straight_line_program.cpp
index 1dbb962..102ace8 100644
--- a/core/src/system/straight_line_program.cpp
+++ b/core/src/system/straight_line_program.cpp
@@ -409,8 +409,10 @@ namespace bertini{
 
 		size_t location_this_node;
 		if (this->locations_encountered_nodes_.find(f_as_ptr) == this->locations_encountered_nodes_.end()){
-			location_this_node = next_available_complex_;
-			locations_encountered_nodes_[f_as_ptr] = next_available_complex_++;
+			// a top-level function or derivative lives at its output location, from the moment it is first computed
+			auto top_level = locations_top_level_functions_and_derivatives_.find(f_as_ptr);
+			location_this_node = top_level == locations_top_level_functions_and_derivatives_.end() ? next_available_complex_++ : top_level->second;
+			locations_encountered_nodes_[f_as_ptr] = location_this_node;
 		}
 		else
 			location_this_node = locations_encountered_nodes_[f_as_ptr];
@@ -773,8 +775,7 @@ namespace bertini{
 		slp_under_construction_.output_locations_.Functions = next_available_complex_;
 		for (auto f: sys.GetNaturalFunctions())
 		{
-			locations_top_level_functions_and_derivatives_[f] = next_available_complex_; // don't increment yet, we're listing it a few places. this is for an optimization that elides a copy for assignment.
-			locations_encountered_nodes_[f] = next_available_complex_++;
+			locations_top_level_functions_and_derivatives_[f] = next_available_complex_++; // this elides a copy for assignment.  not computed yet, so not among the encountered nodes.
 
 			#ifndef BERTINI_DISABLE_FUNCTION_TREE_SANITY_CHECKS
 						try{
@@ -800,8 +801,7 @@ namespace bertini{
 		slp_under_construction_.output_locations_.Jacobian = next_available_complex_;
 		for (auto n: ds_dx)
 		{
-			locations_top_level_functions_and_derivatives_[n] = next_available_complex_; // don't increment yet, we're listing it a few places. this is for an optimization that elides a copy for assignment.
-			locations_encountered_nodes_[n] = next_available_complex_++;
+			locations_top_level_functions_and_derivatives_[n] = next_available_complex_++; // this elides a copy for assignment.  not computed yet, so not among the encountered nodes.
 		}
 
 
@@ -815,8 +815,7 @@ namespace bertini{
 			slp_under_construction_.output_locations_.TimeDeriv = next_available_complex_; // note the start of the block in memory.  the size was also recorded in the previous line.
 			for (auto n: ds_dt)
 			{
-				locations_top_level_functions_and_derivatives_[n] = next_available_complex_; // don't increment yet, we're listing it a few places. this is for an optimization that elides a copy for assignment.
-				locations_encountered_nodes_[n] = next_available_complex_++;
+				locations_top_level_functions_and_derivatives_[n] = next_available_complex_++; // this elides a copy for assignment.  not computed yet, so not among the encountered nodes.
 			}
 		}
 
@@ -826,13 +825,17 @@ namespace bertini{
 
 		// now we're actually ready to start visiting using recursion, since we've recorded the locations of inputs and outputs.
 		
+		size_t output_location = slp_under_construction_.output_locations_.Functions;
 		for (auto& f: sys.GetNaturalFunctions())
 		{
 			f->shared_from_this();
 			f->Accept(*this);
 
 			// post visit function
-			/* code */
+			// the same function may have been added to the system several times
+			if (locations_encountered_nodes_[f] != output_location)
+				slp_under_construction_.AddInstruction(Assign, locations_encountered_nodes_[f], output_location);
+			++output_location;
 		}
 
 
-- 
2.43.0


From 9f43702201ff00ed02fc485743fffab489622076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:37 +0000
Subject: [PATCH 23/51] fix: clearing the straight line program compiler
 forgets every location

---
 core/src/system/straight_line_program.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/src/system/straight_line_program.cpp b/core/src/system/straight_line_program.cpp
index 102ace8..0db78ec 100644
--- a/core/src/system/straight_line_program.cpp
+++ b/core/src/system/straight_line_program.cpp
@@ -876,6 +876,8 @@ namespace bertini{
 		next_available_int_ = 0;
 
 		locations_encountered_nodes_.clear();
+		locations_top_level_functions_and_derivatives_.clear();
+		locations_integers_.clear();
 		slp_under_construction_ = SLP();
 	}
 
-- 
2.43.0


From 20ef69caab16d26672f6a9aac7908595bad75562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:28 +0000
Subject: [PATCH 24/51] fix: a slice works at the precision it was set to

---
 core/include/bertini2/system/slice.hpp | 32 ++++++++++++--------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/core/include/bertini2/system/slice.hpp b/core/include/bertini2/system/slice.hpp
index 1a28d4b..eebe2d5 100644
--- a/core/include/bertini2/system/slice.hpp
+++ b/core/include/bertini2/system/slice.hpp
@@ -158,25 +158,23 @@ namespace bertini {
 		*/
 		void Precision(unsigned new_precision) const
 		{
-			if (new_precision > DoublePrecision())
+			Mat<mpfr_complex>& coefficients_mpfr = std::get<Mat<mpfr_complex> >(coefficients_working_);
+			Vec<mpfr_complex>& constants_mpfr = std::get<Vec<mpfr_complex> >(constants_working_);
+			for (unsigned ii = 0; ii < Dimension(); ++ii)
 			{
-				Mat<mpfr_complex>& coefficients_mpfr = std::get<Mat<mpfr_complex> >(coefficients_working_);
-				Vec<mpfr_complex>& constants_mpfr = std::get<Vec<mpfr_complex> >(constants_working_);
-				for (unsigned ii = 0; ii < Dimension(); ++ii)
+				// copying takes the precision of the source, so set the precision afterwards
+				for (unsigned jj=0; jj<NumVariables(); ++jj)
 				{
-					for (unsigned jj=0; jj<NumVariables(); ++jj)
-					{
-						coefficients_mpfr(ii,jj).precision(new_precision);
-						if (new_precision>precision_)
-							coefficients_mpfr(ii,jj) = coefficients_highest_precision_(ii,jj);
-					}
-					
-					if (!is_homogeneous_)
-					{
-						constants_mpfr(ii).precision(new_precision);
-						if (new_precision>precision_)
-							constants_mpfr(ii) = constants_highest_precision_(ii);
-					}
+					if (new_precision>precision_)
+						coefficients_mpfr(ii,jj) = coefficients_highest_precision_(ii,jj);
+					coefficients_mpfr(ii,jj).precision(new_precision);
+				}
+				
+				if (!is_homogeneous_)
+				{
+					if (new_precision>precision_)
+						constants_mpfr(ii) = constants_highest_precision_(ii);
+					constants_mpfr(ii).precision(new_precision);
 				}
 			}
 			precision_ = new_precision;
-- 
2.43.0


From c0f195c5202441fe366910874a99b0ec92fb435c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:28 +0000
Subject: [PATCH 25/51] fix: straight line programs re-evaluate their numbers
 at a new precision

---
 core/src/system/straight_line_program.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/system/straight_line_program.cpp b/core/src/system/straight_line_program.cpp
index 0db78ec..c2af53c 100644
--- a/core/src/system/straight_line_program.cpp
+++ b/core/src/system/straight_line_program.cpp
@@ -78,6 +78,7 @@ namespace bertini{
 				auto& n = std::get<Nd>(p);
 				auto& loc = std::get<size_t>(p);
 
+				n->precision(new_precision); // so that it is re-evaluated, rather than padding the value at the previous precision
 				mem[loc] = n->Eval<mpfr_complex>();
 			}
 
-- 
2.43.0


From 270d958c991fb00857a152c74cb5a11606008113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:28 +0000
Subject: [PATCH 26/51] fix: changing the precision of a function always
 reaches its expression

---
 core/src/function_tree/roots/function.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/core/src/function_tree/roots/function.cpp b/core/src/function_tree/roots/function.cpp
index 69aa42a..a3227c4 100644
--- a/core/src/function_tree/roots/function.cpp
+++ b/core/src/function_tree/roots/function.cpp
@@ -187,13 +187,8 @@ bool Handle::IsHomogeneous(VariableGroup const& vars) const
 void Handle::precision(unsigned int prec) const
 {
 	auto& val_pair = std::get< std::pair<mpfr_complex,bool> >(current_value_);
-	if (val_pair.first.precision()==prec)
-		return;
-	else{
-		val_pair.first.precision(prec);
-		entry_node_->precision(prec);
-	}
-	
+	val_pair.first.precision(prec);
+	entry_node_->precision(prec);
 }
 
 
-- 
2.43.0


From 0fea487e17aed7692a5f57079da2eb137726abf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:43 +0000
Subject: [PATCH 27/51] fix: changing the precision of a linear product or
 differential reaches its coefficients

---
 .../function_tree/symbols/linear_product.hpp  | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/core/include/bertini2/function_tree/symbols/linear_product.hpp b/core/include/bertini2/function_tree/symbols/linear_product.hpp
index b6f0c77..a6fb492 100644
--- a/core/include/bertini2/function_tree/symbols/linear_product.hpp
+++ b/core/include/bertini2/function_tree/symbols/linear_product.hpp
@@ -326,6 +326,7 @@ namespace  bertini {
 				for (auto iter : variables_)
 					iter->precision(prec);
 
+				hom_variable_->precision(prec);
 			};
 			
 			
@@ -568,7 +569,7 @@ namespace  bertini {
 			
 			Mat<mpq_rational> coeffs_rat_imag_;   ///< Same as coeffs_rat_real_ but for imaginary portion of the coefficients.
 			
-			std::tuple< Mat<dbl>, Mat<mpfr_complex> > coeffs_;   ///< Matrix of coefficients that define the linear product.  Each row corresponds to a factor in the product, columns correspond to the terms in each factor with the final column being the constant coefficient.  This is a tuple with one matrix for each data type.
+			mutable std::tuple< Mat<dbl>, Mat<mpfr_complex> > coeffs_;   ///< Matrix of coefficients that define the linear product.  Each row corresponds to a factor in the product, columns correspond to the terms in each factor with the final column being the constant coefficient.  This is a tuple with one matrix for each data type.
 			
 			VariableGroup variables_; ///< Variables to be used in each linear factor.  Does not have to correspond directly to a variable group from the system.
 			
@@ -758,14 +759,17 @@ namespace  bertini {
 					v.precision(prec);
 				}
 				
-				Mat<mpfr_complex> coeffs_ref = std::get<Mat<mpfr_complex>>(coeffs_);
+				Mat<mpfr_complex>& coeffs_ref = std::get<Mat<mpfr_complex>>(coeffs_);
 				for(int ii = 0; ii < coeffs_ref.rows(); ++ii)
 				{
 					for(int jj = 0; jj < coeffs_ref.cols(); ++jj)
 					{
 						coeffs_ref(ii,jj).precision(prec);
-						coeffs_ref(ii,jj).real( static_cast<mpfr_float>(coeffs_rat_real_(ii,jj)) );
-						coeffs_ref(ii,jj).imag( static_cast<mpfr_float>(coeffs_rat_imag_(ii,jj)) );
+						if (is_rational_coeffs_)
+						{
+							coeffs_ref(ii,jj).real( static_cast<mpfr_float>(coeffs_rat_real_(ii,jj)) );
+							coeffs_ref(ii,jj).imag( static_cast<mpfr_float>(coeffs_rat_imag_(ii,jj)) );
+						}
 					}
 				}
 			}
@@ -1086,7 +1090,7 @@ namespace  bertini {
 			
 			Mat<mpq_rational> coeffs_rat_imag_;   ///< Same as coeffs_rat_real_ but for imaginary portion of the coefficients.
 			
-			std::tuple< Mat<dbl>, Mat<mpfr_complex> > coeffs_;   ///< Matrix of coefficients that define the linear product.  Each row corresponds to a factor in the product, columns correspond to the terms in each factor with the final column being the constant coefficient.  This is a tuple with one matrix for each data type.
+			mutable std::tuple< Mat<dbl>, Mat<mpfr_complex> > coeffs_;   ///< Matrix of coefficients that define the linear product.  Each row corresponds to a factor in the product, columns correspond to the terms in each factor with the final column being the constant coefficient.  This is a tuple with one matrix for each data type.
 			
 			VariableGroup variables_; ///< Differentials of variables used in the linear.
 			
@@ -1128,12 +1132,17 @@ namespace  bertini {
 			
 			void PrecisionChangeSpecific(unsigned prec) const
 			{
-				Mat<mpfr_complex> coeffs_ref = std::get<Mat<mpfr_complex>>(coeffs_);
+				Mat<mpfr_complex>& coeffs_ref = std::get<Mat<mpfr_complex>>(coeffs_);
 				for(int ii = 0; ii < coeffs_ref.rows(); ++ii)
 				{
 					for(int jj = 0; jj < coeffs_ref.cols(); ++jj)
 					{
 						coeffs_ref(ii,jj).precision(prec);
+						if (coeffs_rat_real_.size() > 0)
+						{
+							coeffs_ref(ii,jj).real( static_cast<mpfr_float>(coeffs_rat_real_(ii,jj)) );
+							coeffs_ref(ii,jj).imag( static_cast<mpfr_float>(coeffs_rat_imag_(ii,jj)) );
+						}
 					}
 				}
 			}
-- 
2.43.0


From 5ef9a1c33e4aa2f9b2e4e2180d7f3cf52e997914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:47 +0000
Subject: [PATCH 28/51] fix: ODEPredictor 3 selects the Heun-Euler predictor

---
 core/include/bertini2/io/parsing/settings_parsers/tracking.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/bertini2/io/parsing/settings_parsers/tracking.hpp b/core/include/bertini2/io/parsing/settings_parsers/tracking.hpp
index 2bc4373..7337a67 100644
--- a/core/include/bertini2/io/parsing/settings_parsers/tracking.hpp
+++ b/core/include/bertini2/io/parsing/settings_parsers/tracking.hpp
@@ -168,7 +168,7 @@ namespace bertini {
 					predictor_.add("0", Predictor::Euler);
 					predictor_.add("1", Predictor::Heun);
 					predictor_.add("2", Predictor::RK4);
-					predictor_.add("3", Predictor::Heun);
+					predictor_.add("3", Predictor::HeunEuler);
 					predictor_.add("4", Predictor::RKNorsett34);
 					predictor_.add("5", Predictor::RKF45);
 					predictor_.add("6", Predictor::RKCashKarp45);
-- 
2.43.0


From d1b6e213480d867b7faf0883b24f263321ba492c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:47 +0000
Subject: [PATCH 29/51] fix: the path variable's name is only the name, not the
 text before the setting

---
 core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp b/core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp
index 35a666f..059f841 100644
--- a/core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp
+++ b/core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp
@@ -251,7 +251,7 @@ namespace bertini {
 
 
 					path_variable_name_.name("path_variable_name_");
-					path_variable_name_ = *(char_ - all_names_) >> (no_case[path_variable_name_name] >> ':') >> valid_variable_name_ >> ';';
+					path_variable_name_ = *(char_ - all_names_) >> (no_case[path_variable_name_name] >> ':') >> valid_variable_name_[_val = _1] >> ';';
 
 					init_prec_.name("init_prec_");
 					init_prec_ = *(char_ - all_names_) >> (no_case[init_prec_name] >> ':') >> qi::int_[_val=_1] >> ';';
-- 
2.43.0


From 03c8b180b862cc1fafcdf9416c311cf65aea08be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:02 +0000
Subject: [PATCH 30/51] fix: a setting name is recognised as a whole word among
 the tolerances, so SliceFinalTol is not FinalTol

---
 .../io/parsing/settings_parsers/algorithm.hpp     | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp b/core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp
index 059f841..6d7674e 100644
--- a/core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp
+++ b/core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp
@@ -96,36 +96,40 @@ namespace bertini {
 					all_names_ = (no_case[newton_before_name] >> ':') | (no_case[newton_during_name] >> ':')| (no_case[final_tol_name] >> ':')
 					| (no_case[path_trunc_name] >> ':');
 					
+					// skip whole words, so the end of a longer setting name (slicefinaltol) isn't taken for a setting
+					other_text_.name("other_text_");
+					other_text_ = lexeme[+qi::alnum] | char_;
+					
 					newton_before_endgame_.name("newton_before_endgame_");
-					newton_before_endgame_ = *(char_ - all_names_) >> (no_case[newton_before_name] >> ':')
+					newton_before_endgame_ = *(other_text_ - all_names_) >> (no_case[newton_before_name] >> ':')
 					>> mpfr_rules.number_string_[phx::bind( [this](T & num, std::string str)
 														   {
 															   num = bertini::NumTraits<T>::FromString(str);
 														   }, _val, _1 )] >> ';';
 					
 					newton_during_endgame_.name("newton_during_endgame_");
-					newton_during_endgame_ = *(char_ - all_names_) >> (no_case[newton_during_name] >>':')
+					newton_during_endgame_ = *(other_text_ - all_names_) >> (no_case[newton_during_name] >>':')
 					>> mpfr_rules.number_string_[phx::bind( [this](T & num, std::string str)
 														   {
 															   num = bertini::NumTraits<T>::FromString(str);
 														   }, _val, _1 )] >> ';';
 					
 					final_tol_.name("final_tol_");
-					final_tol_ = *(char_ - all_names_) >> (no_case[final_tol_name] >> ':')
+					final_tol_ = *(other_text_ - all_names_) >> (no_case[final_tol_name] >> ':')
 					>> mpfr_rules.number_string_[phx::bind( [this](T & num, std::string str)
 														   {
 															   num = bertini::NumTraits<T>::FromString(str);
 														   }, _val, _1 )] >> ';';
 					
 					path_trunc_threshold_.name("path_trunc_threshold_");
-					path_trunc_threshold_ = *(char_ - all_names_) >> (no_case[path_trunc_name] >> ':')
+					path_trunc_threshold_ = *(other_text_ - all_names_) >> (no_case[path_trunc_name] >> ':')
 					>> mpfr_rules.number_string_[phx::bind( [this](T & num, std::string str)
 														   {
 															   num = bertini::NumTraits<T>::FromString(str);
 														   }, _val, _1 )] >> ';';
 					
 					no_setting_.name("no_setting_");
-					no_setting_ = *(char_ - all_names_);
+					no_setting_ = *(other_text_ - all_names_);
 					
 					no_decl_.name("no_decl_");
 					no_decl_ = *(char_);
@@ -157,6 +161,7 @@ namespace bertini {
 				qi::rule<Iterator, T(), ascii::space_type > newton_before_endgame_, newton_during_endgame_,
 				final_tol_, path_trunc_threshold_;
 				qi::rule<Iterator, ascii::space_type, std::string()> no_decl_, no_setting_, all_names_;
+				qi::rule<Iterator, ascii::space_type> other_text_;
 				rules::LongNum<Iterator> mpfr_rules;
 				
 				
-- 
2.43.0


From 39681dd99818e8bba7c010462e477fabf63fcadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:04 +0000
Subject: [PATCH 31/51] fix: a leading sign applies to the factor it precedes,
 not to the rest of the expression

---
 core/include/bertini2/io/parsing/function_rules.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/include/bertini2/io/parsing/function_rules.hpp b/core/include/bertini2/io/parsing/function_rules.hpp
index 3dcdf40..b0a5f99 100644
--- a/core/include/bertini2/io/parsing/function_rules.hpp
+++ b/core/include/bertini2/io/parsing/function_rules.hpp
@@ -196,10 +196,10 @@ namespace bertini {
 					
 					exp_elem_.name("exp_elem_");
 					exp_elem_ =
-					(symbol_  >> !qi::alnum) [_val = _1]
+					(lit('-') > factor_  [_val = -_1]) // a sign binds looser than ^, tighter than * and +
+					|   (lit('+') > factor_  [_val = _1])
+					|   (symbol_  >> !qi::alnum) [_val = _1]
 					|   ( '(' > expression_  [_val = _1] > ')'  ) // using the > expectation here.
-					|   (lit('-') > expression_  [_val = -_1])
-					|   (lit('+') > expression_  [_val = _1])
 					|   (lit("sin") > '(' > expression_ [_val = sin_lazy(_1)] > ')' )
 					|   (lit("cos") > '(' > expression_ [_val = cos_lazy(_1)] > ')' )
 					|   (lit("tan") > '(' > expression_ [_val = tan_lazy(_1)] > ')' )
-- 
2.43.0


From e3d9a28f835a186dca856b9c0ea58e46f6ed72b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:22 +0000
Subject: [PATCH 32/51] fix: a number with an exponent but no point is a
 floating point number

---
 core/include/bertini2/io/parsing/number_rules.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/include/bertini2/io/parsing/number_rules.hpp b/core/include/bertini2/io/parsing/number_rules.hpp
index 8ced877..e845287 100644
--- a/core/include/bertini2/io/parsing/number_rules.hpp
+++ b/core/include/bertini2/io/parsing/number_rules.hpp
@@ -100,6 +100,8 @@ namespace bertini{
 				  number_with_digits_before_point_ [_val += _1] )
 				 >>   // reminder -- the - before the exponent_notation here means optional
 				 -exponent_notation_ [_val+=_1]// Possible scientific notation, with possible negative in exponent.
+				 |   // without a point, an exponent makes it a floating point number
+				 number_with_no_point_ [_val += _1] >> exponent_notation_ [_val += _1]
 				 );
 				
 				
-- 
2.43.0


From 21f46e5aa24167d5b24db7788cc3f62e577f686e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:22 +0000
Subject: [PATCH 33/51] fix: a name may begin with the name of another symbol

---
 core/include/bertini2/io/parsing/system_rules.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/bertini2/io/parsing/system_rules.hpp b/core/include/bertini2/io/parsing/system_rules.hpp
index d8083ed..9f91493 100644
--- a/core/include/bertini2/io/parsing/system_rules.hpp
+++ b/core/include/bertini2/io/parsing/system_rules.hpp
@@ -214,7 +214,7 @@ namespace bertini {
 					
 					// this rule gets a string.
 					unencountered_symbol_.name("unencountered_symbol_");
-					unencountered_symbol_ = valid_variable_name_ - lexeme[( declarative_symbols_ | encountered_symbols_ )];
+					unencountered_symbol_ = valid_variable_name_ - lexeme[( declarative_symbols_ | encountered_symbols_ ) >> !(qi::alnum | qi::char_("[]_"))];
 					// i am unsure about the use of lexeme in the above rule (unencountered_symbol).
 					
 					
-- 
2.43.0


From 667cb02fd6e470f55db5f2a18d89abd9e940d8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:18 +0000
Subject: [PATCH 34/51] fix: the blackbox solver uses the endgame that was
 chosen

---
 core/include/bertini2/blackbox/switches_zerodim.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/bertini2/blackbox/switches_zerodim.hpp b/core/include/bertini2/blackbox/switches_zerodim.hpp
index c02f3f9..cecfbd4 100644
--- a/core/include/bertini2/blackbox/switches_zerodim.hpp
+++ b/core/include/bertini2/blackbox/switches_zerodim.hpp
@@ -69,14 +69,14 @@ template <typename StartType, typename TrackerType, typename EndgameType, typena
 std::unique_ptr<algorithm::AnyZeroDim> ZeroDimSpecifyShouldClone(std::true_type, ConstTs const& ...ts)
 {
 	return ZeroDimSpecifyComplete<StartType, TrackerType, 
-			typename endgame::EndgameSelector<TrackerType>::Cauchy, policy::CloneGiven>(ts...);
+			EndgameType, policy::CloneGiven>(ts...);
 }
 
 template <typename StartType, typename TrackerType, typename EndgameType, typename ... ConstTs>
 std::unique_ptr<algorithm::AnyZeroDim> ZeroDimSpecifyShouldClone(std::false_type, ConstTs const& ...ts)
 {
 	return ZeroDimSpecifyComplete<StartType, TrackerType, 
-			typename endgame::EndgameSelector<TrackerType>::Cauchy, policy::RefToGiven>(ts...);
+			EndgameType, policy::RefToGiven>(ts...);
 }
 
 
-- 
2.43.0


From a93702e5b473f951a6428f794cfc852a4daa7ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:37 +0000
Subject: [PATCH 35/51] fix: the Cauchy endgame truncates runaway paths at
 security level 0, as the power series endgame does

---
 core/include/bertini2/endgames/cauchy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/bertini2/endgames/cauchy.hpp b/core/include/bertini2/endgames/cauchy.hpp
index 0044c4e..18d16da 100644
--- a/core/include/bertini2/endgames/cauchy.hpp
+++ b/core/include/bertini2/endgames/cauchy.hpp
@@ -1123,7 +1123,7 @@ public:
 				return SuccessCode::Success;
 			}
 
-			if (this->SecuritySettings().level)
+			if (this->SecuritySettings().level <= 0)
 			{//we are too large, break out of loop to return error.
 				norm_of_dehom_latest = this->GetSystem().DehomogenizePoint(latest_approx).template lpNorm<Eigen::Infinity>();
 
-- 
2.43.0


From 56f194af4e93cc4c3e99f4b0ca7376eca9c45815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:37 +0000
Subject: [PATCH 36/51] fix: endgame sample times approach the target time by
 the sample factor

---
 core/include/bertini2/endgames/base_endgame.hpp | 2 +-
 core/include/bertini2/endgames/cauchy.hpp       | 2 +-
 core/include/bertini2/endgames/powerseries.hpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/include/bertini2/endgames/base_endgame.hpp b/core/include/bertini2/endgames/base_endgame.hpp
index 6fe1657..5eb9c6b 100644
--- a/core/include/bertini2/endgames/base_endgame.hpp
+++ b/core/include/bertini2/endgames/base_endgame.hpp
@@ -359,7 +359,7 @@ public:
 		//start at 1, because the input point is the 0th element.
 		for(int ii=1; ii < this->template Get<EndgameConfig>().num_sample_points; ++ii)
 		{ 
-			times.emplace_back((times[ii-1] + target_time) * RT(this->template Get<EndgameConfig>().sample_factor)); // next time is a point between the previous time and target time.
+			times.emplace_back(target_time + (times[ii-1] - target_time) * RT(this->template Get<EndgameConfig>().sample_factor)); // next time is a point between the previous time and target time.
 			samples.emplace_back(Vec<CT>(num_vars));											   // sample_factor gives us some point between the two, usually the midpoint.		
 
 			auto tracking_success = this->GetTracker().TrackPath(samples[ii],times[ii-1],times[ii],samples[ii-1]);
diff --git a/core/include/bertini2/endgames/cauchy.hpp b/core/include/bertini2/endgames/cauchy.hpp
index 18d16da..3922d52 100644
--- a/core/include/bertini2/endgames/cauchy.hpp
+++ b/core/include/bertini2/endgames/cauchy.hpp
@@ -1022,7 +1022,7 @@ public:
 		auto& current_sample = ps_samples.back();
 
 		//Generalized next_time in case if we are not trying to converge to the t = 0.
-		CT next_time = (target_time-current_time) * static_cast<RT>(this->EndgameSettings().sample_factor)+current_time;
+		CT next_time = target_time + (current_time-target_time) * static_cast<RT>(this->EndgameSettings().sample_factor);
 
 		if (abs(next_time - target_time) < this->EndgameSettings().min_track_time)//we are too close to t = 0 but we do not have the correct tolerance - so we exit
 			return SuccessCode::MinTrackTimeReached;
diff --git a/core/include/bertini2/endgames/powerseries.hpp b/core/include/bertini2/endgames/powerseries.hpp
index 8a6f5f4..d43fdfa 100644
--- a/core/include/bertini2/endgames/powerseries.hpp
+++ b/core/include/bertini2/endgames/powerseries.hpp
@@ -574,7 +574,7 @@ public:
 		AssertSizesTimeSpaceDeriv<CT>();
 
 		Vec<CT> next_sample;
-		CT next_time = (times.back() + target_time) * static_cast<RT>(this->EndgameSettings().sample_factor); //setting up next time value using the midpoint formula, sample_factor will give us some 
+		CT next_time = target_time + (times.back() - target_time) * static_cast<RT>(this->EndgameSettings().sample_factor); //setting up next time value using the midpoint formula, sample_factor will give us some 
 
   		if (abs(next_time - target_time) < this->EndgameSettings().min_track_time) // generalized for target_time not equal to 0.
   		{
-- 
2.43.0


From 1431d3847d45307eadf52300a2adbc4f0917bf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:04 +0000
Subject: [PATCH 37/51] fix: observers which remove themselves while being
 notified do not disturb the notification of the others

---
 core/include/bertini2/detail/observable.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/include/bertini2/detail/observable.hpp b/core/include/bertini2/detail/observable.hpp
index 4ccc308..122348e 100644
--- a/core/include/bertini2/detail/observable.hpp
+++ b/core/include/bertini2/detail/observable.hpp
@@ -88,7 +88,9 @@ namespace bertini{
 		void NotifyObservers(AnyEvent const& e) const
 		{
 
-			for (auto& obs : current_watchers_)
+			// an observer may remove itself, or others, while being notified, so iterate over a copy
+			const auto watchers = current_watchers_;
+			for (auto& obs : watchers)
 				obs.get().Observe(e);
 
 		}
@@ -96,7 +98,9 @@ namespace bertini{
 		void NotifyObservers(AnyEvent & e) const
 		{
 
-			for (auto& obs : current_watchers_)
+			// an observer may remove itself, or others, while being notified, so iterate over a copy
+			const auto watchers = current_watchers_;
+			for (auto& obs : watchers)
 				obs.get().Observe(e);
 		}
 
-- 
2.43.0


From fff38bc646c9d1cbda1f1b5d0f3474a6a7b9f3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:04 +0000
Subject: [PATCH 38/51] fix: the midpath check reports crossings from the
 current check only, and re-runs crossed paths whose start points differ

---
 core/include/bertini2/nag_algorithms/midpath_check.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/include/bertini2/nag_algorithms/midpath_check.hpp b/core/include/bertini2/nag_algorithms/midpath_check.hpp
index c7ead7f..9bdbbf2 100644
--- a/core/include/bertini2/nag_algorithms/midpath_check.hpp
+++ b/core/include/bertini2/nag_algorithms/midpath_check.hpp
@@ -134,6 +134,10 @@ namespace bertini{
 			template <typename StartSystemT>
 			bool Check(BoundaryData const& boundary_data, StartSystemT const& start_system)
 			{
+				// the result describes this check only, not earlier ones
+				crossed_paths_.clear();
+				passed_ = true;
+
 				for (PathIndT ii = 0; ii < boundary_data.size(); ++ii)
 				{
 					if ( boundary_data[ii].success_code != SuccessCode::Success)
@@ -158,7 +162,7 @@ namespace bertini{
 							
 							const auto start_jj = start_system.template StartPoint<ComplexType>(jj);
 							auto diff_start = start_ii - start_jj;
-							bool same_start = (diff_start.template lpNorm<Eigen::Infinity>() > SamePointTol());
+							bool same_start = (diff_start.template lpNorm<Eigen::Infinity>() < SamePointTol());
 							
 							
 							// Check if path has already been stored in crossed_paths_
@@ -209,7 +213,7 @@ namespace bertini{
 		private:
 			
 			std::vector<CrossedPath> crossed_paths_; // Data for all paths that crossed on last check
-			bool passed_;  // Did the check pass?
+			bool passed_ = true;  // Did the check pass?
 			
 			
 		}; //re: struct MidpathChecker
-- 
2.43.0


From c6ec08fd626e90f4c5df0d9d0794db5ff5da37ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:04 +0000
Subject: [PATCH 39/51] fix: solving again starts afresh, rather than from the
 metadata and step size of the previous solve

---
 core/include/bertini2/nag_algorithms/zero_dim_solve.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
index 7ab3919..40f1830 100644
--- a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
+++ b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
@@ -574,6 +574,11 @@ std::ostream& operator<<(std::ostream & out, const EGBoundaryMetaData<NumT> & me
 			{
 				auto num_as_size_t = static_cast<SolnIndT>(num_start_points_);
 
+				// a solve starts afresh, without results from a previous one
+				solution_final_metadata_.clear();
+				solutions_at_endgame_boundary_.clear();
+				solutions_post_endgame_.clear();
+
 				solution_final_metadata_.resize(num_as_size_t);
 				solutions_at_endgame_boundary_.resize(num_as_size_t);
 				solutions_post_endgame_.resize(num_as_size_t);
@@ -593,6 +598,7 @@ std::ostream& operator<<(std::ostream & out, const EGBoundaryMetaData<NumT> & me
 				DefaultPrecision(this->template Get<ZeroDimConf>().initial_ambient_precision);
 
 				GetTracker().SetTrackingTolerance(this->template Get<Tolerances>().newton_before_endgame);
+				GetTracker().ReinitializeInitialStepSize(true); // tracking during the endgame turns this off
 
 				auto t_start = this->template Get<ZeroDimConf>().start_time;
 				auto t_endgame_boundary = this->template Get<ZeroDimConf>().endgame_boundary;
-- 
2.43.0


From 24ac8327d23346531a0b5918eb88d2135afadbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:55 +0000
Subject: [PATCH 40/51] fix: extracting all solutions skips paths which never
 reached the endgame, and so have no final point

---
 core/include/bertini2/nag_algorithms/output.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/include/bertini2/nag_algorithms/output.hpp b/core/include/bertini2/nag_algorithms/output.hpp
index 5cd3062..57d3b80 100644
--- a/core/include/bertini2/nag_algorithms/output.hpp
+++ b/core/include/bertini2/nag_algorithms/output.hpp
@@ -272,6 +272,10 @@ struct AllSolutions
 		const auto n = s.size();
 		for (decltype(s.size()) ii{0}; ii<n; ++ii)
 		{
+			// paths which did not make it to the endgame have no final point
+			if (m[ii].endgame_success == SuccessCode::NeverStarted)
+				continue;
+
 			solns.push_back(sys.DehomogenizePoint(s[ii]));
 		}
 
-- 
2.43.0


From 250e8960b4d200fbefbf7d213ff790dfc99e3f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:55 +0000
Subject: [PATCH 41/51] fix: an endgame which fails before its first
 approximation does not report that of an earlier run

---
 core/include/bertini2/endgames/cauchy.hpp      | 1 +
 core/include/bertini2/endgames/powerseries.hpp | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/core/include/bertini2/endgames/cauchy.hpp b/core/include/bertini2/endgames/cauchy.hpp
index 3922d52..5bf2c10 100644
--- a/core/include/bertini2/endgames/cauchy.hpp
+++ b/core/include/bertini2/endgames/cauchy.hpp
@@ -1091,6 +1091,7 @@ public:
 		ClearTimesAndSamples<CT>(); //clear times and samples before we begin.
 		this->CycleNumber(0);
 		prev_approx = start_point;
+		latest_approx = start_point; // in case of failure before the first approximation
 		
 		auto init_success = GetIntoEGZone(start_time, start_point, target_time);
 		if (init_success!= SuccessCode::Success)
diff --git a/core/include/bertini2/endgames/powerseries.hpp b/core/include/bertini2/endgames/powerseries.hpp
index d43fdfa..6b1aa29 100644
--- a/core/include/bertini2/endgames/powerseries.hpp
+++ b/core/include/bertini2/endgames/powerseries.hpp
@@ -661,6 +661,10 @@ public:
 		Vec<CT>& latest_approx = this->final_approximation_;
 		Vec<CT>& prev_approx = this->previous_approximation_;
 
+		// in case of failure before the first approximation
+		prev_approx = start_point;
+		latest_approx = start_point;
+
 		// this is for estimating a ... norm?
 		SetRandVec<CT>(start_point.size());	 	
 		
-- 
2.43.0


From b7a3792f6280ec05c105455e8f181227db768da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:56 +0000
Subject: [PATCH 42/51] fix: the precision metadata of a path does not carry
 over from paths tracked before it

---
 core/include/bertini2/nag_algorithms/zero_dim_solve.hpp | 5 +++++
 core/include/bertini2/trackers/observers.hpp            | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
index 40f1830..61e73d4 100644
--- a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
+++ b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
@@ -619,6 +619,9 @@ std::ostream& operator<<(std::ostream & out, const EGBoundaryMetaData<NumT> & me
 					// if you can think of a way to replace this `if` with something meta, please do so.
 					if (tracking::TrackerTraits<TrackerType>::IsAdaptivePrec)
 					{
+						// the recorders are to tell about this path only
+						first_prec_rec_ = decltype(first_prec_rec_)();
+						min_max_prec_ = decltype(min_max_prec_)();
 						GetTracker().AddObserver(first_prec_rec_);
 						GetTracker().AddObserver(min_max_prec_);
 					}
@@ -722,6 +725,8 @@ std::ostream& operator<<(std::ostream & out, const EGBoundaryMetaData<NumT> & me
 					// if you can think of a way to replace this `if` with something meta, please do so.
 					if (tracking::TrackerTraits<TrackerType>::IsAdaptivePrec)
 					{
+						first_prec_rec_ = decltype(first_prec_rec_)();
+						min_max_prec_ = decltype(min_max_prec_)();
 						if (!smd.precision_changed)
 							GetTracker().AddObserver(first_prec_rec_);
 						GetTracker().AddObserver(min_max_prec_);
diff --git a/core/include/bertini2/trackers/observers.hpp b/core/include/bertini2/trackers/observers.hpp
index 427d6a5..d302d58 100644
--- a/core/include/bertini2/trackers/observers.hpp
+++ b/core/include/bertini2/trackers/observers.hpp
@@ -103,7 +103,7 @@ namespace bertini {
 
 			unsigned starting_precision_;
 			unsigned next_precision_;
-			bool precision_increased_;
+			bool precision_increased_ = false;
 			typename TrackerTraits<TrackerT>::BaseComplexType time_of_first_increase_;
 		};
 
-- 
2.43.0


From b8160b03e7bae50e3703cd7fd29adb466074ac34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:49 +0000
Subject: [PATCH 43/51] fix: printing a dehomogenized endpoint leaves the
 default precision as it was

---
 core/include/bertini2/nag_algorithms/output.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/include/bertini2/nag_algorithms/output.hpp b/core/include/bertini2/nag_algorithms/output.hpp
index 57d3b80..490d1d0 100644
--- a/core/include/bertini2/nag_algorithms/output.hpp
+++ b/core/include/bertini2/nag_algorithms/output.hpp
@@ -167,9 +167,12 @@ struct Classic <ZeroDim<A,B,C,D,E>>
 	static
 	void EndPointDehom(IndexT const& ind, OutT & out, ZDT const& zd, std::string const& additional = "")
 	{	
+		const auto previous_precision = DefaultPrecision();
 		DefaultPrecision(Precision(zd.FinalSolutions()[ind]));
 
 		generators::Classic::generate(boost::spirit::ostream_iterator(out), zd.TargetSystem().DehomogenizePoint(zd.FinalSolutions()[ind]));
+
+		DefaultPrecision(previous_precision);
 		out << additional;
 	}
 
-- 
2.43.0


From 3ef2aa6da5a65f7a9f6b4c4aed7b990673bdcd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:50 +0000
Subject: [PATCH 44/51] fix: m-homogeneous start points are found by indices
 beyond the range of an int

---
 core/src/system/start/mhom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/system/start/mhom.cpp b/core/src/system/start/mhom.cpp
index 241fc82..0ccf044 100644
--- a/core/src/system/start/mhom.cpp
+++ b/core/src/system/start/mhom.cpp
@@ -349,7 +349,7 @@ namespace bertini
 			
 			
 			// First, determine which partition we are looking through
-			int counter = 0;
+			unsigned long long counter = 0;
 			int partition_ii = -1;
 			for (int ii = 0; ii < valid_partitions_.size(); ++ii)
 			{
-- 
2.43.0


From a3dce58819f042c93f916eb14ac108d6df687321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:36 +0000
Subject: [PATCH 45/51] fix: m-homogeneous start points of homogenized and
 patched targets

---
 core/src/system/start/mhom.cpp | 46 ++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/core/src/system/start/mhom.cpp b/core/src/system/start/mhom.cpp
index 0ccf044..2ec4fcd 100644
--- a/core/src/system/start/mhom.cpp
+++ b/core/src/system/start/mhom.cpp
@@ -225,15 +225,14 @@ namespace bertini
 			Vec<int> current_partition = -1*Vec<int>::Ones(target_system.NumNaturalFunctions());
 			Vec<int> variable_group_counter = Vec<int>::Zero(target_system.NumTotalVariableGroups());
 
-			auto size_of_each_var_gp = target_system.VariableGroupSizes(); //K
-			
-
-
-
-
 			for(int ii = 0; ii < target_system.NumTotalVariableGroups(); ++ii)
 			{
-				variable_group_counter[ii] = size_of_each_var_gp[ii];
+				// the groups are ordered as the columns of the degree matrix are.
+				variable_group_counter[ii] = var_groups_[ii].size(); //K
+
+				// in a patched system, the patch takes up one dimension of each homogeneous group
+				if (target_system.IsPatched() && ii < target_system.NumHomVariableGroups())
+					variable_group_counter[ii] -= 1;
 			}			    
 			// std::cout << "variable_group_counter is " << std::endl;
 			// std::cout << variable_group_counter << std::endl;		
@@ -385,9 +384,11 @@ namespace bertini
 			
 			// Create a linear system to solve.
 			size_t num_grouped_variables = NumNaturalVariables() - NumUngroupedVariables();
-			Mat<T> A(partition.size(), num_grouped_variables);
+			// in a patched system, a representative is chosen for each homogeneous group, and later rescaled to the patch
+			size_t num_normalizations = IsPatched() ? NumHomVariableGroups() : 0;
+			Mat<T> A(partition.size() + num_normalizations, num_grouped_variables);
 			Vec<T> v(num_grouped_variables);
-			Vec<T> b(partition.size());
+			Vec<T> b(partition.size() + num_normalizations);
 			
 			for(int ii = 0; ii < partition.size(); ++ii)
 			{
@@ -403,7 +404,32 @@ namespace bertini
 				b(ii) = -coeff[cols.size()];
 			}
 			
-			start_point = A.partialPivLu().solve(b);
+			for (int ii = 0; ii < num_normalizations; ++ii)
+			{
+				v.setZero();
+				for (auto jj : variable_cols_[ii])
+					v(jj) = T(1);
+
+				A.row(partition.size()+ii) = v;
+				b(partition.size()+ii) = T(1);
+			}
+
+			Vec<T> grouped_values = A.partialPivLu().solve(b);
+
+			// put the values into the ordering of the variables of this system.  homogenizing variables are 1.
+			auto ordering = Variables();
+			start_point.resize(ordering.size());
+			for (size_t ii = 0; ii < ordering.size(); ++ii)
+			{
+				start_point(ii) = T(1);
+				for (size_t jj = 0; jj < var_groups_.size(); ++jj)
+					for (size_t kk = 0; kk < var_groups_[jj].size(); ++kk)
+						if (var_groups_[jj][kk] == ordering[ii])
+							start_point(ii) = grouped_values(variable_cols_[jj][kk]);
+			}
+
+			if (IsPatched())
+				RescalePointToFitPatchInPlace(start_point);
 		}
 		
 		
-- 
2.43.0


From 68fc7fe16092f430d671ecffac79c6c18fd8eeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:36 +0000
Subject: [PATCH 46/51] fix: the user start system refuses indices beyond its
 start points

---
 core/src/system/start/user.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/src/system/start/user.cpp b/core/src/system/start/user.cpp
index 33fdde0..574879b 100644
--- a/core/src/system/start/user.cpp
+++ b/core/src/system/start/user.cpp
@@ -57,10 +57,10 @@ namespace bertini {
 		Vec<dbl> User::GenerateStartPoint(dbl,unsigned long long index) const
 		{
 			if (solns_in_dbl_)
-				return std::get<SampCont<dbl>>(solns_)[index];
+				return std::get<SampCont<dbl>>(solns_).at(index);
 			else
 			{
-				const auto& r = std::get<SampCont<mpfr_complex>>(solns_)[index];
+				const auto& r = std::get<SampCont<mpfr_complex>>(solns_).at(index);
 				Vec<dbl> pt(r.size());
 				for (unsigned ii=0; ii<r.size(); ++ii)
 					pt(ii) = dbl(r(ii));
@@ -74,7 +74,7 @@ namespace bertini {
 		{
 			if (solns_in_dbl_)
 			{
-				const auto& r = std::get<SampCont<dbl>>(solns_)[index];
+				const auto& r = std::get<SampCont<dbl>>(solns_).at(index);
 				Vec<mpfr_complex> pt(r.size());
 				for (unsigned ii=0; ii<r.size(); ++ii)
 					pt(ii) = static_cast<mpfr_complex>(r(ii));
@@ -83,7 +83,7 @@ namespace bertini {
 			}
 			else
 			{
-				return std::get<SampCont<mpfr_complex>>(solns_)[index];
+				return std::get<SampCont<mpfr_complex>>(solns_).at(index);
 			}
 		}
 
-- 
2.43.0


From 510533442e797c0b8b36b803da4106d8750cb211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:04 +0000
Subject: [PATCH 47/51] fix: the degree of negatives and powers in a variable
 group

The group degree of a negated sum or of a power of a sum was the sum of the degrees in each variable, so
that -(x+y) had degree two, sums containing it were homogenized to functions which are not homogeneous,
and the negative degree of a non-polynomial operand was lost: -(sqrt(x)+y) was taken for a polynomial.
---
 .../function_tree/operators/arithmetic.hpp    | 19 +++++++++++
 .../function_tree/operators/arithmetic.cpp    | 32 ++++++++++---------
 core/src/function_tree/operators/operator.cpp | 13 ++++----
 3 files changed, 43 insertions(+), 21 deletions(-)

diff --git a/core/include/bertini2/function_tree/operators/arithmetic.hpp b/core/include/bertini2/function_tree/operators/arithmetic.hpp
index 379982d..2d93641 100644
--- a/core/include/bertini2/function_tree/operators/arithmetic.hpp
+++ b/core/include/bertini2/function_tree/operators/arithmetic.hpp
@@ -309,6 +309,16 @@ namespace node{
 		 */
 		std::shared_ptr<Node> Differentiate(std::shared_ptr<Variable> const& v = nullptr) const override;
 
+		using UnaryOperator::Degree;
+
+		/**
+		Compute the degree with respect to a variable group.
+		*/
+		int Degree(VariableGroup const& vars) const override
+		{
+			return operand_->Degree(vars);
+		}
+
 		bool IsHomogeneous(std::shared_ptr<Variable> const& v = nullptr) const override
 		{
 			return operand_->IsHomogeneous(v);
@@ -643,6 +653,10 @@ namespace node{
 		void FreshEval_mp(mpfr_complex& evaulation_value, std::shared_ptr<Variable> const& diff_variable) const override;
 
 	private:
+
+		// the degree, from the degrees of the base and exponent with respect to the same variable(s).
+		int DegreeFrom(int base_deg, int exp_deg) const;
+
 				
 		PowerOperator() = default;
 		
@@ -727,6 +741,11 @@ namespace node{
 		 Compute the degree of a node.  For integer power functions, the degree is the product of the degree of the argument, and the power.
 		 */
 		int Degree(std::shared_ptr<Variable> const& v = nullptr) const override;
+
+		/**
+		Compute the degree with respect to a variable group.
+		*/
+		int Degree(VariableGroup const& vars) const override;
 		
 		
 		bool IsHomogeneous(std::shared_ptr<Variable> const& v = nullptr) const override
diff --git a/core/src/function_tree/operators/arithmetic.cpp b/core/src/function_tree/operators/arithmetic.cpp
index 7b0e722..fc41fa8 100644
--- a/core/src/function_tree/operators/arithmetic.cpp
+++ b/core/src/function_tree/operators/arithmetic.cpp
@@ -962,12 +962,8 @@ std::shared_ptr<Node> PowerOperator::Differentiate(std::shared_ptr<Variable> con
 }
 
 
-int PowerOperator::Degree(std::shared_ptr<Variable> const& v) const
+int PowerOperator::DegreeFrom(int base_deg, int exp_deg) const
 {
-	
-	auto base_deg = base_->Degree(v);
-	auto exp_deg = exponent_->Degree(v);
-	
 	if (exp_deg==0)
 	{
 		auto exp_val = exponent_->Eval<dbl>();
@@ -1008,19 +1004,15 @@ int PowerOperator::Degree(std::shared_ptr<Variable> const& v) const
 	}
 }
 
-int PowerOperator::Degree(VariableGroup const& vars) const
+int PowerOperator::Degree(std::shared_ptr<Variable> const& v) const
 {
-	auto multideg = MultiDegree(vars);
-	auto deg = 0;
-	std::for_each(multideg.begin(),multideg.end(),[&](int n){
-					if (n < 0)
-						deg = -1;
-					else
-						deg += n;
-					});
-	return deg;
+	return DegreeFrom(base_->Degree(v), exponent_->Degree(v));
 }
 
+int PowerOperator::Degree(VariableGroup const& vars) const
+{
+	return DegreeFrom(base_->Degree(vars), exponent_->Degree(vars));
+}
 
 std::vector<int> PowerOperator::MultiDegree(VariableGroup const& vars) const
 {
@@ -1173,6 +1165,16 @@ int IntegerPowerOperator::Degree(std::shared_ptr<Variable> const& v) const
 	
 }
 
+int IntegerPowerOperator::Degree(VariableGroup const& vars) const
+{
+	auto base_deg = operand_->Degree(vars);
+	if (base_deg<0)
+		return base_deg;
+	else
+		return exponent_*base_deg;
+	
+}
+
 
 
 
diff --git a/core/src/function_tree/operators/operator.cpp b/core/src/function_tree/operators/operator.cpp
index 1d49782..7cba761 100644
--- a/core/src/function_tree/operators/operator.cpp
+++ b/core/src/function_tree/operators/operator.cpp
@@ -62,12 +62,13 @@ int UnaryOperator::Degree(VariableGroup const& vars) const
 {
 	auto multideg = MultiDegree(vars);
 	auto deg = 0;
-	std::for_each(multideg.begin(),multideg.end(),[&](int n){
-					if (n < 0)
-						deg = n;
-					else
-						deg += n;
-					});
+	for (auto n : multideg)
+	{
+		if (n < 0)
+			return n;
+
+		deg += n;
+	}
 	return deg;
 }
 
-- 
2.43.0


From 4e697668e56f22b468c938df64eef4f2e0481820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:05 +0000
Subject: [PATCH 48/51] fix: the multidegree of sums and products does not hide
 non-polynomial operands

The maximum or sum of the degrees of the operands lost the negative degree of a non-polynomial operand, and
the multidegree of a quotient did not tell its denominator from a factor.
---
 .../function_tree/operators/arithmetic.cpp    | 24 +++++--------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/core/src/function_tree/operators/arithmetic.cpp b/core/src/function_tree/operators/arithmetic.cpp
index fc41fa8..8dbbf7a 100644
--- a/core/src/function_tree/operators/arithmetic.cpp
+++ b/core/src/function_tree/operators/arithmetic.cpp
@@ -248,16 +248,10 @@ int SumOperator::Degree(VariableGroup const& vars) const
 
 std::vector<int> SumOperator::MultiDegree(VariableGroup const& vars) const
 {
-	std::vector<int> deg(vars.size(),0);
-	for (auto iter : operands_)
-	{
-		auto term_deg = iter->MultiDegree(vars);
+	std::vector<int> deg;
+	for (auto const& v : vars)
+		deg.push_back(Degree(v));
 
-		for (auto iter = term_deg.begin(); iter!= term_deg.end(); ++iter)
-		{
-			*(deg.begin()+(iter-term_deg.begin())) = std::max(*(deg.begin()+(iter-term_deg.begin())), *iter);
-		}
-	}
 	return deg;
 }
 
@@ -807,16 +801,10 @@ int MultOperator::Degree(VariableGroup const& vars) const
 
 std::vector<int> MultOperator::MultiDegree(VariableGroup const& vars) const
 {
-	std::vector<int> deg(vars.size(),0);
-	for (auto iter : operands_)
-	{
-		auto term_deg = iter->MultiDegree(vars);
+	std::vector<int> deg;
+	for (auto const& v : vars)
+		deg.push_back(Degree(v));
 
-		for (auto iter = term_deg.begin(); iter!= term_deg.end(); ++iter)
-		{
-			*(deg.begin()+(iter-term_deg.begin())) += *iter;
-		}
-	}
 	return deg;
 }
 
-- 
2.43.0


From 9301b8a62f67577fc23a4638000cf41a003c20bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:05 +0000
Subject: [PATCH 49/51] fix: a sum shared by several expressions is homogenized
 only once

Every further occurrence multiplied the terms of lower degree by the homogenizing variable again, and the
result was not homogeneous.
---
 core/src/function_tree/operators/arithmetic.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/src/function_tree/operators/arithmetic.cpp b/core/src/function_tree/operators/arithmetic.cpp
index 8dbbf7a..fd8acb8 100644
--- a/core/src/function_tree/operators/arithmetic.cpp
+++ b/core/src/function_tree/operators/arithmetic.cpp
@@ -268,13 +268,18 @@ void SumOperator::Homogenize(VariableGroup const& vars, std::shared_ptr<Variable
 	
 	// then, homogenize this sum.
 	
+	// the homogenizing variable counts, so that a sum which appears more than once is homogenized only once.
+	VariableGroup vars_and_homvar = vars;
+	if (std::find(vars.begin(), vars.end(), homvar) == vars.end())
+		vars_and_homvar.push_back(homvar);
+
 	// compute the highest degree among all summands.
 	int maxdegree = 0;
 	std::vector<int> term_degrees;
 	// first homogenize each summand.
 	for (auto iter: operands_)
 	{
-		auto local_degree = iter->Degree(vars);
+		auto local_degree = iter->Degree(vars_and_homvar);
 		if (local_degree<0)
 			throw std::runtime_error("asking for homogenization on non-polynomial node");
 		// TODO: this throw would leave the tree in a partially homogenized state.  this is scary.
-- 
2.43.0


From 84d64c8609b419c0a18194ff4b5536e5b335371c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:05 +0000
Subject: [PATCH 50/51] fix: the total degree of a linear product is the number
 of its factors

It was zero, because the product was searched for the null variable.
---
 core/src/function_tree/linear_product.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/function_tree/linear_product.cpp b/core/src/function_tree/linear_product.cpp
index a6b1e91..96bb366 100644
--- a/core/src/function_tree/linear_product.cpp
+++ b/core/src/function_tree/linear_product.cpp
@@ -118,8 +118,8 @@ namespace  bertini {
 		{
 			int deg = 0;
 			
-			// If v is part of the linear product
-			if(std::find(variables_.begin(), variables_.end(), v) != std::end(variables_))
+			// If v is part of the linear product, or the total degree is asked for
+			if(v == nullptr || std::find(variables_.begin(), variables_.end(), v) != std::end(variables_))
 			{
 				deg = num_factors_;
 			}
-- 
2.43.0


From 33e70c43ded1a74f9f52334641f7a2ba8c2c5bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 51/51] fix: a time derivative refused for want of a path
 variable leaves the variables as they were, and a short destination is
 refused

---
 core/include/bertini2/system/system.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/core/include/bertini2/system/system.hpp b/core/include/bertini2/system/system.hpp
index 3170673..7ac04b9 100644
--- a/core/include/bertini2/system/system.hpp
+++ b/core/include/bertini2/system/system.hpp
@@ -686,6 +686,9 @@ namespace bertini {
 		{
 			static_assert(std::is_same<typename Derived::Scalar, T>::value, "scalar types must be the same");
 
+			if (!HavePathVariable())
+				throw std::runtime_error("computing time derivative of system with no path variable defined");
+
 			SetVariables(variable_values.eval()); //TODO: remove this eval()
 			SetPathVariable(path_variable_value);
 			ResetTimeDerivatives();
@@ -728,6 +731,9 @@ namespace bertini {
 		{
 			static_assert(std::is_same<typename Derived::Scalar, T>::value, "scalar types must be the same");
 
+			if (!HavePathVariable())
+				throw std::runtime_error("computing time derivative of system with no path variable defined");
+
 			SetVariables(variable_values.eval()); //TODO: remove this eval()
 			ResetTimeDerivatives();
 			TimeDerivativeInPlace(ds_dt);
@@ -761,10 +767,10 @@ namespace bertini {
 		void TimeDerivativeInPlace(Vec<T> & ds_dt) const
 		{
 
-			if(ds_dt.size() < NumNaturalFunctions())
+			if(ds_dt.size() != NumTotalFunctions())
 			{
 				std::stringstream ss;
-				ss << "trying to evaluate system in place, but number of input functions (" << ds_dt.size() << ") doesn't match number of system functions (" << NumNaturalFunctions() << ").";
+				ss << "trying to evaluate system in place, but number of input functions (" << ds_dt.size() << ") doesn't match number of system functions plus patches (" << NumTotalFunctions() << ").";
 				throw std::runtime_error(ss.str());
 			}
 
@@ -1039,6 +1045,9 @@ namespace bertini {
 		template<typename T>
 		void SetAndReset(Vec<T> const& new_space, T const& new_time) const
 		{
+			if (!HavePathVariable())
+				throw std::runtime_error("trying to set the value of the path variable, but one is not defined for this system");
+
 			SetVariables(new_space);
 			SetPathVariable(new_time);
 
-- 
2.43.0

