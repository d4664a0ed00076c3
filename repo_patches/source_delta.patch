From 1777410765bc87f395a62f413008ab2e37c79417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:13 +0000
Subject: [PATCH 01/76] fix: differentiate the exponent of a power operator too

---
 core/src/function_tree/operators/arithmetic.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/core/src/function_tree/operators/arithmetic.cpp b/core/src/function_tree/operators/arithmetic.cpp
index 0fde38a..769fd10 100644
--- a/core/src/function_tree/operators/arithmetic.cpp
+++ b/core/src/function_tree/operators/arithmetic.cpp
@@ -958,7 +958,16 @@ std::shared_ptr<Node> PowerOperator::Differentiate(std::shared_ptr<Variable> con
 	auto ret_mult = MultOperator::Make(base_->Differentiate(v));
 	ret_mult->AddOperand(exponent_);
 	ret_mult->AddOperand(PowerOperator::Make(base_, exp_minus_one));
-	return ret_mult;
+
+	// if the exponent doesn't depend on the variable, the power rule is all there is.  
+	if (exponent_->Degree(v)==0)
+		return ret_mult;
+
+	// otherwise, there's also the term b^e * log(b) * e'
+	auto exponent_term = MultOperator::Make(PowerOperator::Make(base_, exponent_));
+	exponent_term->AddOperand(log(base_));
+	exponent_term->AddOperand(exponent_->Differentiate(v));
+	return SumOperator::Make(ret_mult, exponent_term);
 }
 
 
-- 
2.43.0


From 3b48bcab805b1eeda9345384ac599c66661f780e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:13 +0000
Subject: [PATCH 02/76] fix: keep product rule terms whose factor has
 derivative one

---
 core/src/function_tree/operators/arithmetic.cpp | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/core/src/function_tree/operators/arithmetic.cpp b/core/src/function_tree/operators/arithmetic.cpp
index 769fd10..fe91adf 100644
--- a/core/src/function_tree/operators/arithmetic.cpp
+++ b/core/src/function_tree/operators/arithmetic.cpp
@@ -739,13 +739,6 @@ std::shared_ptr<Node> MultOperator::Differentiate(std::shared_ptr<Variable> cons
 				term_ii->AddOperand(operands_[jj],mult_or_div_[jj]);
 		}
 		
-		// and then either 1. multiply it against the current derivative, or 2. invoke the quotient rule.
-		if (is_it_a_number)
-			if (is_it_a_number->Eval<dbl>()==dbl(1.0))
-				continue;
-		
-		// if the derivative of the term under consideration is equal to 1, no need to go on.  already have the product we need.
-		
 		// if is division, need this for the quotient rule
 		if ( !(mult_or_div_[ii]) )
 			term_ii->AddOperand(pow(operands_[ii],2),false); // draw a line and square below
-- 
2.43.0


From d4f5beba65bcc31ee97d7aa6f77699e29927a44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:34 +0000
Subject: [PATCH 03/76] fix: linear products follow precision changes

---
 .../function_tree/symbols/linear_product.hpp  | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/core/include/bertini2/function_tree/symbols/linear_product.hpp b/core/include/bertini2/function_tree/symbols/linear_product.hpp
index 43a0721..41b7417 100644
--- a/core/include/bertini2/function_tree/symbols/linear_product.hpp
+++ b/core/include/bertini2/function_tree/symbols/linear_product.hpp
@@ -568,7 +568,7 @@ namespace  bertini {
 			
 			Mat<mpq_rational> coeffs_rat_imag_;   ///< Same as coeffs_rat_real_ but for imaginary portion of the coefficients.
 			
-			std::tuple< Mat<dbl>, Mat<mpfr_complex> > coeffs_;   ///< Matrix of coefficients that define the linear product.  Each row corresponds to a factor in the product, columns correspond to the terms in each factor with the final column being the constant coefficient.  This is a tuple with one matrix for each data type.
+			mutable std::tuple< Mat<dbl>, Mat<mpfr_complex> > coeffs_;   ///< Matrix of coefficients that define the linear product.  Each row corresponds to a factor in the product, columns correspond to the terms in each factor with the final column being the constant coefficient.  This is a tuple with one matrix for each data type.
 			
 			VariableGroup variables_; ///< Variables to be used in each linear factor.  Does not have to correspond directly to a variable group from the system.
 			
@@ -740,14 +740,17 @@ namespace  bertini {
 					v.precision(prec);
 				}
 				
-				Mat<mpfr_complex> coeffs_ref = std::get<Mat<mpfr_complex>>(coeffs_);
+				Mat<mpfr_complex>& coeffs_ref = std::get<Mat<mpfr_complex>>(coeffs_);
 				for(int ii = 0; ii < coeffs_ref.rows(); ++ii)
 				{
 					for(int jj = 0; jj < coeffs_ref.cols(); ++jj)
 					{
 						coeffs_ref(ii,jj).precision(prec);
-						coeffs_ref(ii,jj).real( static_cast<mpfr_float>(coeffs_rat_real_(ii,jj)) );
-						coeffs_ref(ii,jj).imag( static_cast<mpfr_float>(coeffs_rat_imag_(ii,jj)) );
+						if (is_rational_coeffs_)
+						{
+							coeffs_ref(ii,jj).real( mpfr_float(coeffs_rat_real_(ii,jj), prec) );
+							coeffs_ref(ii,jj).imag( mpfr_float(coeffs_rat_imag_(ii,jj), prec) );
+						}
 					}
 				}
 			}
@@ -1068,7 +1071,7 @@ namespace  bertini {
 			
 			Mat<mpq_rational> coeffs_rat_imag_;   ///< Same as coeffs_rat_real_ but for imaginary portion of the coefficients.
 			
-			std::tuple< Mat<dbl>, Mat<mpfr_complex> > coeffs_;   ///< Matrix of coefficients that define the linear product.  Each row corresponds to a factor in the product, columns correspond to the terms in each factor with the final column being the constant coefficient.  This is a tuple with one matrix for each data type.
+			mutable std::tuple< Mat<dbl>, Mat<mpfr_complex> > coeffs_;   ///< Matrix of coefficients that define the linear product.  Each row corresponds to a factor in the product, columns correspond to the terms in each factor with the final column being the constant coefficient.  This is a tuple with one matrix for each data type.
 			
 			VariableGroup variables_; ///< Differentials of variables used in the linear.
 			
@@ -1101,12 +1104,17 @@ namespace  bertini {
 			
 			void PrecisionChangeSpecific(unsigned prec) const
 			{
-				Mat<mpfr_complex> coeffs_ref = std::get<Mat<mpfr_complex>>(coeffs_);
+				Mat<mpfr_complex>& coeffs_ref = std::get<Mat<mpfr_complex>>(coeffs_);
 				for(int ii = 0; ii < coeffs_ref.rows(); ++ii)
 				{
 					for(int jj = 0; jj < coeffs_ref.cols(); ++jj)
 					{
 						coeffs_ref(ii,jj).precision(prec);
+						if (coeffs_rat_real_.size()>0)
+						{
+							coeffs_ref(ii,jj).real( mpfr_float(coeffs_rat_real_(ii,jj), prec) );
+							coeffs_ref(ii,jj).imag( mpfr_float(coeffs_rat_imag_(ii,jj), prec) );
+						}
 					}
 				}
 			}
-- 
2.43.0


From 7304aaca8b93057f93e59c1aa3ac316a7ded25dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:34 +0000
Subject: [PATCH 04/76] fix: differential of a linear uses the homogenizing
 coefficient

---
 .../include/bertini2/function_tree/symbols/linear_product.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/bertini2/function_tree/symbols/linear_product.hpp b/core/include/bertini2/function_tree/symbols/linear_product.hpp
index 41b7417..849e175 100644
--- a/core/include/bertini2/function_tree/symbols/linear_product.hpp
+++ b/core/include/bertini2/function_tree/symbols/linear_product.hpp
@@ -988,7 +988,7 @@ namespace  bertini {
 				if(diff_variable == hom_variable_)
 				{
 					auto& coeff_ref = std::get<Mat<dbl>>(coeffs_);
-					evaluation_value = coeff_ref(0,variables_.size()-1);
+					evaluation_value = coeff_ref(0,variables_.size());
 					return;
 				}
 				
@@ -1035,7 +1035,7 @@ namespace  bertini {
 				if(diff_variable == hom_variable_)
 				{
 					auto& coeff_ref = std::get<Mat<mpfr_complex>>(coeffs_);
-					evaluation_value = coeff_ref(0,variables_.size()-1);
+					evaluation_value = coeff_ref(0,variables_.size());
 					return;
 				}
 				
-- 
2.43.0


From 939b0c98edd9a93a598cc037e2423ce6db34396f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:09 +0000
Subject: [PATCH 05/76] fix: linear products differentiate with respect to the
 given variable

---
 .../function_tree/symbols/linear_product.hpp  |  8 ++++++
 core/src/function_tree/linear_product.cpp     | 26 +++++++++++++++++--
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/core/include/bertini2/function_tree/symbols/linear_product.hpp b/core/include/bertini2/function_tree/symbols/linear_product.hpp
index 849e175..c5f08fc 100644
--- a/core/include/bertini2/function_tree/symbols/linear_product.hpp
+++ b/core/include/bertini2/function_tree/symbols/linear_product.hpp
@@ -690,6 +690,14 @@ namespace  bertini {
             std::shared_ptr<LinearProduct> GetLinears(size_t index) const;
 
 			
+			/**
+			 \brief Differentiate a single linear factor.
+
+			 \param index Index of the linear factor, starting at 0
+			 \param v The variable to differentiate with respect to.  If null, produces the differential of the linear.
+			 */
+			std::shared_ptr<Node> DifferentiateLinear(size_t index, std::shared_ptr<Variable> const& v) const;
+
 			
 			/**
 			 \brief Break off a set of linear factors in the product and return as a LinearProduct node.
diff --git a/core/src/function_tree/linear_product.cpp b/core/src/function_tree/linear_product.cpp
index 233a208..f247ce3 100644
--- a/core/src/function_tree/linear_product.cpp
+++ b/core/src/function_tree/linear_product.cpp
@@ -63,7 +63,7 @@ namespace  bertini {
 			std::vector<size_t> indices;  //Those factors that are not differentiated in one particular term of the differentiated result.
             
 			// First term of product rule
-			std::shared_ptr<MultOperator> temp_mult = MultOperator::Make(DiffLinear::Make(GetLinears(0)));
+			std::shared_ptr<MultOperator> temp_mult = MultOperator::Make(DifferentiateLinear(0,v));
 			for(int ii = 1; ii < num_factors_; ++ii)
 			{
 				indices.push_back(ii);  // Indices 1 to num_factors-1
@@ -76,7 +76,7 @@ namespace  bertini {
 			// Rest of the factors
 			for(int ii = 1; ii < num_factors_; ++ii)
 			{
-				temp_mult = MultOperator::Make(DiffLinear::Make(GetLinears(ii)));
+				temp_mult = MultOperator::Make(DifferentiateLinear(ii,v));
 				indices.clear();
 				for(int jj = 0; jj < num_factors_ ; ++jj)
 				{
@@ -317,6 +317,28 @@ namespace  bertini {
 		
 		
 		
+		std::shared_ptr<Node> LinearProduct::DifferentiateLinear(size_t index, std::shared_ptr<Variable> const& v) const
+		{
+			if (v == nullptr)
+				return DiffLinear::Make(GetLinears(index));
+
+			// the derivative with respect to one variable is that variable's coefficient
+			for (size_t jj = 0; jj < num_variables_+1; ++jj)
+			{
+				if (jj < num_variables_ ? variables_[jj] != v : hom_variable_ != v)
+					continue;
+
+				if (is_rational_coeffs_)
+					return Rational::Make(coeffs_rat_real_(index,jj), coeffs_rat_imag_(index,jj));
+				else
+					return Float::Make(std::get<Mat<mpfr_complex>>(coeffs_)(index,jj));
+			}
+
+			return Integer::Make(0);
+		}
+
+
+
 		std::shared_ptr<LinearProduct> LinearProduct::GetLinears(size_t index) const
 		{
 			if(is_rational_coeffs_)
-- 
2.43.0


From 7d5a67480c78cddc0c126ec2c4de359ed3ef84cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:12 +0000
Subject: [PATCH 06/76] fix: degrees of negations and powers with respect to
 variable groups

---
 .../function_tree/operators/arithmetic.hpp    | 20 +++++++
 .../function_tree/operators/arithmetic.cpp    | 53 ++++++++++---------
 2 files changed, 49 insertions(+), 24 deletions(-)

diff --git a/core/include/bertini2/function_tree/operators/arithmetic.hpp b/core/include/bertini2/function_tree/operators/arithmetic.hpp
index 379982d..607f3ff 100644
--- a/core/include/bertini2/function_tree/operators/arithmetic.hpp
+++ b/core/include/bertini2/function_tree/operators/arithmetic.hpp
@@ -309,6 +309,19 @@ namespace node{
 		 */
 		std::shared_ptr<Node> Differentiate(std::shared_ptr<Variable> const& v = nullptr) const override;
 
+		/**
+		 The degree of a negation is that of its operand.
+		 */
+		int Degree(std::shared_ptr<Variable> const& v = nullptr) const override
+		{
+			return operand_->Degree(v);
+		}
+
+		int Degree(VariableGroup const& vars) const override
+		{
+			return operand_->Degree(vars);
+		}
+
 		bool IsHomogeneous(std::shared_ptr<Variable> const& v = nullptr) const override
 		{
 			return operand_->IsHomogeneous(v);
@@ -648,6 +661,11 @@ namespace node{
 		
 		std::shared_ptr<Node> base_;
 		std::shared_ptr<Node> exponent_;
+
+		/**
+		 Degree of this power, from the degrees of its base and exponent with respect to some variables.
+		 */
+		int PowerDegree(int base_deg, int exp_deg) const;
 		
 
 
@@ -727,6 +745,8 @@ namespace node{
 		 Compute the degree of a node.  For integer power functions, the degree is the product of the degree of the argument, and the power.
 		 */
 		int Degree(std::shared_ptr<Variable> const& v = nullptr) const override;
+
+		int Degree(VariableGroup const& vars) const override;
 		
 		
 		bool IsHomogeneous(std::shared_ptr<Variable> const& v = nullptr) const override
diff --git a/core/src/function_tree/operators/arithmetic.cpp b/core/src/function_tree/operators/arithmetic.cpp
index fe91adf..7c5f04c 100644
--- a/core/src/function_tree/operators/arithmetic.cpp
+++ b/core/src/function_tree/operators/arithmetic.cpp
@@ -966,12 +966,26 @@ std::shared_ptr<Node> PowerOperator::Differentiate(std::shared_ptr<Variable> con
 
 int PowerOperator::Degree(std::shared_ptr<Variable> const& v) const
 {
-	
-	auto base_deg = base_->Degree(v);
-	auto exp_deg = exponent_->Degree(v);
-	
+	return PowerDegree(base_->Degree(v), exponent_->Degree(v));
+}
+
+int PowerOperator::Degree(VariableGroup const& vars) const
+{
+	return PowerDegree(base_->Degree(vars), exponent_->Degree(vars));
+}
+
+int PowerOperator::PowerDegree(int base_deg, int exp_deg) const
+{
 	if (exp_deg==0)
 	{
+		// a constant raised to a constant is a constant
+		if (base_deg==0)
+			return 0;
+
+		// the exponent is constant with respect to these variables, but might depend on others
+		if (exponent_->Degree()!=0)
+			return -1;
+
 		auto exp_val = exponent_->Eval<dbl>();
 		bool exp_is_int = false;
 		
@@ -995,13 +1009,7 @@ int PowerOperator::Degree(std::shared_ptr<Variable> const& v) const
 			
 		}
 		else
-		{
-			if (base_deg==0)
-				return 0;
-			else
-				return -1;
-		}
-		
+			return -1;
 	}
 	else
 	{
@@ -1010,19 +1018,6 @@ int PowerOperator::Degree(std::shared_ptr<Variable> const& v) const
 	}
 }
 
-int PowerOperator::Degree(VariableGroup const& vars) const
-{
-	auto multideg = MultiDegree(vars);
-	auto deg = 0;
-	std::for_each(multideg.begin(),multideg.end(),[&](int n){
-					if (n < 0)
-						deg = -1;
-					else
-						deg += n;
-					});
-	return deg;
-}
-
 
 std::vector<int> PowerOperator::MultiDegree(VariableGroup const& vars) const
 {
@@ -1176,6 +1171,16 @@ int IntegerPowerOperator::Degree(std::shared_ptr<Variable> const& v) const
 }
 
 
+int IntegerPowerOperator::Degree(VariableGroup const& vars) const
+{
+	auto base_deg = operand_->Degree(vars);
+	if (base_deg<0)
+		return base_deg;
+	else
+		return exponent_*base_deg;
+}
+
+
 
 
 
-- 
2.43.0


From 1deefac99d840c13e5a0d6c9775b663a309c55ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:12 +0000
Subject: [PATCH 07/76] fix: multidegrees of sums and products report
 non-polynomial operands

---
 .../function_tree/operators/arithmetic.cpp    | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/core/src/function_tree/operators/arithmetic.cpp b/core/src/function_tree/operators/arithmetic.cpp
index 7c5f04c..eb60f94 100644
--- a/core/src/function_tree/operators/arithmetic.cpp
+++ b/core/src/function_tree/operators/arithmetic.cpp
@@ -255,7 +255,10 @@ std::vector<int> SumOperator::MultiDegree(VariableGroup const& vars) const
 
 		for (auto iter = term_deg.begin(); iter!= term_deg.end(); ++iter)
 		{
-			*(deg.begin()+(iter-term_deg.begin())) = std::max(*(deg.begin()+(iter-term_deg.begin())), *iter);
+			auto& total = *(deg.begin()+(iter-term_deg.begin()));
+			if (total<0) // already known to be non-polynomial in this variable
+				continue;
+			total = (*iter<0) ? *iter : std::max(total, *iter);
 		}
 	}
 	return deg;
@@ -808,13 +811,21 @@ int MultOperator::Degree(VariableGroup const& vars) const
 std::vector<int> MultOperator::MultiDegree(VariableGroup const& vars) const
 {
 	std::vector<int> deg(vars.size(),0);
-	for (auto iter : operands_)
+	for (size_t ii = 0; ii < operands_.size(); ++ii)
 	{
-		auto term_deg = iter->MultiDegree(vars);
+		auto factor_deg = operands_[ii]->MultiDegree(vars);
 
-		for (auto iter = term_deg.begin(); iter!= term_deg.end(); ++iter)
+		for (size_t jj = 0; jj < factor_deg.size(); ++jj)
 		{
-			*(deg.begin()+(iter-term_deg.begin())) += *iter;
+			if (deg[jj]<0) // already known to be non-polynomial in this variable
+				continue;
+
+			if (factor_deg[jj]<0)
+				deg[jj] = factor_deg[jj];
+			else if (factor_deg[jj]!=0 && !mult_or_div_[ii])
+				deg[jj] = -1;
+			else
+				deg[jj] += factor_deg[jj];
 		}
 	}
 	return deg;
-- 
2.43.0


From 236bfb7e42d140591ecb1b4243f5ac20ba356128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:12 +0000
Subject: [PATCH 08/76] fix: a power with a variable exponent is not
 homogeneous

---
 core/src/function_tree/operators/arithmetic.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/function_tree/operators/arithmetic.cpp b/core/src/function_tree/operators/arithmetic.cpp
index eb60f94..d5e8172 100644
--- a/core/src/function_tree/operators/arithmetic.cpp
+++ b/core/src/function_tree/operators/arithmetic.cpp
@@ -1057,7 +1057,7 @@ void PowerOperator::Homogenize(VariableGroup const& vars, std::shared_ptr<Variab
 bool PowerOperator::IsHomogeneous(std::shared_ptr<Variable> const& v) const
 {
 	// the only hope this has of being homogeneous, is that the degree of the exponent is 0 (it's constant), and that it's an integer
-	if (exponent_->Degree(v)==0)
+	if (exponent_->Degree()==0)
 	{
 		auto exp_val = exponent_->Eval<dbl>();
 		if (fabs(imag(exp_val)) < 10*std::numeric_limits<double>::epsilon())
@@ -1072,7 +1072,7 @@ bool PowerOperator::IsHomogeneous(std::shared_ptr<Variable> const& v) const
 bool PowerOperator::IsHomogeneous(VariableGroup const& v) const
 {
 	// the only hope this has of being homogeneous, is that the degree of the exponent is 0 (it's constant), and that it's an integer
-	if (exponent_->Degree(v)==0)
+	if (exponent_->Degree()==0)
 	{
 		auto exp_val = exponent_->Eval<dbl>();
 		if (fabs(imag(exp_val)) < 10*std::numeric_limits<double>::epsilon())
-- 
2.43.0


From 18a075918a36088a88a5cc566c5e9b6d88007b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:13 +0000
Subject: [PATCH 09/76] fix: homogenize nodes shared between functions only
 once

---
 core/src/system/system.cpp | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index c5598d9..527dc03 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -456,23 +456,18 @@ namespace bertini
 			std::stringstream converter;
 			converter << "HOM_VAR_" << group_counter;
 
-			if (already_had_homvars){
-				Var hom_var = homogenizing_variables_[group_counter];
-				VariableGroup temp_group = *curr_var_gp;
+			if (!already_had_homvars)
+				homogenizing_variables_[group_counter] = Variable::Make(converter.str());
 
-				PushFront(temp_group, hom_var);
+			// the homogenizing variable counts toward the degree, so that nodes which appear 
+			// several times in the system are not homogenized again after the first time.
+			Var hom_var = homogenizing_variables_[group_counter];
+			VariableGroup temp_group = *curr_var_gp;
 
-				// temp_group.push_front(hom_var);
-				for (const auto& curr_function : functions_)
-					curr_function->Homogenize(temp_group, hom_var);
-			}
-			else
-			{
-				Var hom_var = Variable::Make(converter.str());
-				homogenizing_variables_[group_counter] = hom_var;
-				for (const auto& curr_function : functions_)
-					curr_function->Homogenize(*curr_var_gp, hom_var);
-			}
+			PushFront(temp_group, hom_var);
+
+			for (const auto& curr_function : functions_)
+				curr_function->Homogenize(temp_group, hom_var);
 
 			group_counter++;
 		}
-- 
2.43.0


From 2054abc141b1c99d7927add7c95876f08a754429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:13 +0000
Subject: [PATCH 10/76] fix: dehomogenize points of systems with several
 variable groups

---
 core/include/bertini2/system/system.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/include/bertini2/system/system.hpp b/core/include/bertini2/system/system.hpp
index b19b93d..9932ac5 100644
--- a/core/include/bertini2/system/system.hpp
+++ b/core/include/bertini2/system/system.hpp
@@ -1700,19 +1700,20 @@ namespace bertini {
 							auto h = x(hom_index++);
 							for (unsigned ii = 0; ii < variable_groups_[affine_group_counter].size(); ++ii)
 								x_dehomogenized(dehom_index++) = x(hom_index++) / h;
-							affine_group_counter++;
 						}
 						else
 						{
 							for (unsigned ii = 0; ii < variable_groups_[affine_group_counter].size(); ++ii)
 								x_dehomogenized(dehom_index++) = x(hom_index++);
 						}
+						affine_group_counter++;
 						break;
 					}
 					case VariableGroupType::Homogeneous:
 					{
 						for (unsigned ii = 0; ii < hom_variable_groups_[hom_group_counter].size(); ++ii)
 							x_dehomogenized(dehom_index++) = x(hom_index++);
+						hom_group_counter++;
 						break;
 					}
 					case VariableGroupType::Ungrouped:
-- 
2.43.0


From 09446aa9586bbe5a2bef461b8adc988e0080715c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:42 +0000
Subject: [PATCH 11/76] fix: function tree evaluation does not fall through to
 the straight line program

---
 core/include/bertini2/system/system.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/include/bertini2/system/system.hpp b/core/include/bertini2/system/system.hpp
index 9932ac5..fb938dc 100644
--- a/core/include/bertini2/system/system.hpp
+++ b/core/include/bertini2/system/system.hpp
@@ -286,11 +286,13 @@ namespace bertini {
 					for (auto iter=functions_.begin(); iter!=functions_.end(); iter++, counter++) {
 						(*iter)->EvalInPlace<T>(function_values(counter));
 					}
+					break;
 				}
 
 				case EvalMethod::SLP:
 					{
 						slp_.GetFuncValsInPlace<T>(function_values);
+						break;
 					}
 			}
 
-- 
2.43.0


From 578be6342ff4cd1bfdae871511c4f0f00db29f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:42 +0000
Subject: [PATCH 12/76] fix: setting the variables of a system invalidates all
 values computed from them

---
 core/include/bertini2/system/system.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/include/bertini2/system/system.hpp b/core/include/bertini2/system/system.hpp
index fb938dc..b866b5e 100644
--- a/core/include/bertini2/system/system.hpp
+++ b/core/include/bertini2/system/system.hpp
@@ -991,6 +991,7 @@ namespace bertini {
 					}
 
 					std::get<Vec<T> >(current_variable_values_) = new_values;
+					Reset(); // all of the functions and derivatives depend on the variables
 					break;
 				}
 				case EvalMethod::SLP:{
@@ -1025,6 +1026,7 @@ namespace bertini {
 			switch (eval_method_){
 				case EvalMethod::FunctionTree:{
 					path_variable_->set_current_value(new_value);
+					Reset(); // all of the functions and derivatives may depend on time
 					break;
 				}
 				case EvalMethod::SLP:{
-- 
2.43.0


From 63d89b690d092227b2ed2c0ce939ae8e3a909019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:42 +0000
Subject: [PATCH 13/76] fix: copying and swapping systems carry the straight
 line program and the settings

---
 core/src/system/system.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index 527dc03..5e4657d 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -85,6 +85,11 @@ namespace bertini
 
 		swap(a.assume_uniform_precision_,b.assume_uniform_precision_);
 		swap(a.eval_method_,b.eval_method_);
+		swap(a.deriv_method_,b.deriv_method_);
+		swap(a.auto_simplify_,b.auto_simplify_);
+
+		swap(a.slp_,b.slp_);
+		swap(a.current_variable_values_,b.current_variable_values_);
 
 		swap(a.precision_,b.precision_);
 		swap(a.is_patched_,b.is_patched_);
@@ -113,6 +118,10 @@ namespace bertini
 
 		assume_uniform_precision_ = other.assume_uniform_precision_;
 		eval_method_ = other.eval_method_;
+		deriv_method_ = other.deriv_method_;
+		auto_simplify_ = other.auto_simplify_;
+
+		slp_ = other.slp_;
 
 		time_order_of_variable_groups_ = other.time_order_of_variable_groups_;
 
-- 
2.43.0


From 911130b6d47586e0b33080a8a0f673aaf26f6750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:42 +0000
Subject: [PATCH 14/76] fix: adding and multiplying systems discards
 derivatives and leaves operands alone

---
 core/src/system/system.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index 5e4657d..503e80d 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -1324,8 +1324,10 @@ namespace bertini
 				throw std::runtime_error("System+=System cannot combine two patched systems whose patches differ.");
 
 		for (auto iter=functions_.begin(); iter!=functions_.end(); iter++)
-			(*iter)->SetRoot( (*(rhs.functions_.begin()+(iter-functions_.begin())))->EntryNode() + (*iter)->EntryNode());
+			// a new function, because the old one may be shared with another system
+			*iter = Function::Make( (*(rhs.functions_.begin()+(iter-functions_.begin())))->EntryNode() + (*iter)->EntryNode(), (*iter)->name());
 
+		is_differentiated_ = false;
 		return *this;
 	}
 
@@ -1339,8 +1341,11 @@ namespace bertini
 	{
 		for (auto iter=functions_.begin(); iter!=functions_.end(); iter++)
 		{
-			(*iter)->SetRoot( N * (*iter)->EntryNode());
+			// a new function, because the old one may be shared with another system
+			*iter = Function::Make( N * (*iter)->EntryNode(), (*iter)->name());
 		}
+
+		is_differentiated_ = false;
 		return *this;
 	}
 
-- 
2.43.0


From af61bb4536e9a326b0a58b5bdefd0ffa5ca0f524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:42 +0000
Subject: [PATCH 15/76] fix: concatenation copies the patch of the second
 system

---
 core/src/system/system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index 503e80d..8ce6e00 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -1377,7 +1377,7 @@ namespace bertini
 				throw std::runtime_error("concatenating systems with incompatible patches");
 
 		if (sys2.IsPatched() && !sys1.IsPatched())
-			sys1.CopyPatches(sys1);
+			sys1.CopyPatches(sys2);
 		// the other cases are automatically covered.  sys1 already patched, or neither patched.
 
 		for (unsigned ii(0); ii<sys2.NumNaturalFunctions(); ++ii)
-- 
2.43.0


From 6a310666f8ec3b6bb6e15e95d393e90d1abd7379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:42 +0000
Subject: [PATCH 16/76] fix: reordering the functions of a system discards its
 derivatives

---
 core/src/system/system.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index 8ce6e00..ec721cb 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -1011,6 +1011,7 @@ namespace bertini
 		}
 
 		swap(functions_, re_ordered_functions);
+		is_differentiated_ = false;
 	}
 
 
@@ -1038,6 +1039,7 @@ namespace bertini
 		}
 
 		swap(functions_, re_ordered_functions);
+		is_differentiated_ = false;
 	}
 
 
-- 
2.43.0


From 85b9a88540ed0e2d6c8d0fae682ad808b6006ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:42 +0000
Subject: [PATCH 17/76] fix: clearing the variables of a system clears their
 ordering

---
 core/src/system/system.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index ec721cb..e0bc55e 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -1067,6 +1067,12 @@ namespace bertini
 
 		path_variable_.reset();
 		have_path_variable_ = false;
+
+		time_order_of_variable_groups_.clear();
+		variable_ordering_.clear();
+		have_ordering_ = false;
+		is_differentiated_ = false;
+		is_patched_ = false;
 	}
 
 
-- 
2.43.0


From f18dbb69b2f4ebc3a8ac6f6d8e15ebb0212329ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:42 +0000
Subject: [PATCH 18/76] fix: a system which is not patched has no patches

---
 core/include/bertini2/system/system.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/bertini2/system/system.hpp b/core/include/bertini2/system/system.hpp
index b866b5e..18dbf0b 100644
--- a/core/include/bertini2/system/system.hpp
+++ b/core/include/bertini2/system/system.hpp
@@ -873,7 +873,7 @@ namespace bertini {
 		*/
 		size_t NumPatches() const
 		{
-			return patch_.NumVariableGroups();
+			return IsPatched() ? patch_.NumVariableGroups() : 0;
 		}
 
 		/**
-- 
2.43.0


From 7450cf4fc19e094d6d55c25541a0e589164fde05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:42 +0000
Subject: [PATCH 19/76] fix: assuming uniform precision can be turned on

---
 core/include/bertini2/system/system.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/bertini2/system/system.hpp b/core/include/bertini2/system/system.hpp
index 18dbf0b..d364bc9 100644
--- a/core/include/bertini2/system/system.hpp
+++ b/core/include/bertini2/system/system.hpp
@@ -1522,7 +1522,7 @@ namespace bertini {
 
 		void AssumeUniformPrecision(bool val)
 		{
-			assume_uniform_precision_ = false;
+			assume_uniform_precision_ = val;
 		}
 
 		/** 
-- 
2.43.0


From 790ea232c406c9d4a0744da58839497123957f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:42 +0000
Subject: [PATCH 20/76] fix: changing evaluation or derivative method takes
 effect on a differentiated system

---
 core/include/bertini2/system/system.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/include/bertini2/system/system.hpp b/core/include/bertini2/system/system.hpp
index d364bc9..62d085b 100644
--- a/core/include/bertini2/system/system.hpp
+++ b/core/include/bertini2/system/system.hpp
@@ -1587,6 +1587,7 @@ namespace bertini {
 		void SetEvalMethod(EvalMethod method)
 		{
 			eval_method_ = method;
+			is_differentiated_ = false;
 		}
 
 		/**  
@@ -1606,6 +1607,7 @@ namespace bertini {
 		void SetDerivMethod(DerivMethod method)
 		{
 			deriv_method_ = method;
+			is_differentiated_ = false;
 		}
 
 		/**  
-- 
2.43.0


From cf85270f0462e6a56ffc90f8f81676f42715540d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:42 +0000
Subject: [PATCH 21/76] fix: asking for the derivatives of a system leaves it
 ready for evaluation

---
 core/src/system/system.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index e0bc55e..024146e 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -401,7 +401,10 @@ namespace bertini
 
 	std::vector< Nd > System::GetSpaceDerivatives() const
 	{
-		if ( (deriv_method_==DerivMethod::JacobianNode) || (!is_differentiated_) )
+		if (!is_differentiated_)
+			Differentiate();
+
+		if (deriv_method_==DerivMethod::JacobianNode)
 			DifferentiateUsingDerivatives();
 
 		return space_derivatives_;
@@ -409,7 +412,10 @@ namespace bertini
 
 	std::vector< Nd > System::GetTimeDerivatives() const
 	{
-		if ( (deriv_method_==DerivMethod::JacobianNode) || (!is_differentiated_) )
+		if (!is_differentiated_)
+			Differentiate();
+
+		if (deriv_method_==DerivMethod::JacobianNode)
 			DifferentiateUsingDerivatives();
 		
 		return time_derivatives_;
-- 
2.43.0


From 53aadf804f579149cbbd8725d4a302d68a12a33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:29 +0000
Subject: [PATCH 22/76] fix: straight line programs of functions which appear
 in one another

---
 .../bertini2/system/straight_line_program.hpp |  1 -
 core/src/system/straight_line_program.cpp     | 99 +++++--------------
 2 files changed, 24 insertions(+), 76 deletions(-)

diff --git a/core/include/bertini2/system/straight_line_program.hpp b/core/include/bertini2/system/straight_line_program.hpp
index a91ff43..fd2f7b1 100644
--- a/core/include/bertini2/system/straight_line_program.hpp
+++ b/core/include/bertini2/system/straight_line_program.hpp
@@ -750,7 +750,6 @@ namespace bertini {
 
 			std::map<Nd, size_t> locations_encountered_nodes_; //< A registry of pointers-to-nodes and location in memory on where to find *their results*
 			std::map<IntT, size_t> locations_integers_;
-			std::map<Nd, size_t> locations_top_level_functions_and_derivatives_;
 
 			SLP slp_under_construction_; //< the under-construction SLP.  will be returned at end of `compile`
 	};
diff --git a/core/src/system/straight_line_program.cpp b/core/src/system/straight_line_program.cpp
index 176ec8f..5391488 100644
--- a/core/src/system/straight_line_program.cpp
+++ b/core/src/system/straight_line_program.cpp
@@ -396,7 +396,6 @@ namespace bertini{
 
 
 	void SLPCompiler::Visit(node::Function const & f){
-		// put the location of the accepted node into memory, and copy into an output location.
 		const std::shared_ptr<node::Node>& n = f.EntryNode();
 		const std::shared_ptr<const node::Function> f_as_ptr = std::dynamic_pointer_cast<node::Function const>(f.shared_from_this());
 
@@ -406,21 +405,8 @@ namespace bertini{
 		size_t location_entry = this->locations_encountered_nodes_[n];
 
 
-		size_t location_this_node;
-		if (this->locations_encountered_nodes_.find(f_as_ptr) == this->locations_encountered_nodes_.end()){
-			location_this_node = next_available_complex_;
-			locations_encountered_nodes_[f_as_ptr] = next_available_complex_++;
-		}
-		else
-			location_this_node = locations_encountered_nodes_[f_as_ptr];
-
-
-		if (locations_top_level_functions_and_derivatives_.find(f_as_ptr)!= locations_top_level_functions_and_derivatives_.end()){ // top-level
-			slp_under_construction_.AddInstruction(Assign, location_entry, location_this_node);
-		}
-		else{ // not a top-level
-			slp_under_construction_.AddInstruction(Assign, location_entry, location_this_node);
-		}
+		// a function has the value of its entry node, so there is nothing to compute.
+		locations_encountered_nodes_[f_as_ptr] = location_entry;
 	}
 
 
@@ -770,88 +756,50 @@ namespace bertini{
 			// 3. ADD FUNCTIONS
 		slp_under_construction_.number_of_.Functions = sys.NumNaturalFunctions();
 		slp_under_construction_.output_locations_.Functions = next_available_complex_;
-		for (auto f: sys.GetNaturalFunctions())
-		{
-			locations_top_level_functions_and_derivatives_[f] = next_available_complex_; // don't increment yet, we're listing it a few places. this is for an optimization that elides a copy for assignment.
-			locations_encountered_nodes_[f] = next_available_complex_++;
-
-			#ifndef BERTINI_DISABLE_FUNCTION_TREE_SANITY_CHECKS
-						try{
-							f->shared_from_this();
-						}
-						catch (std::exception){
-							throw std::runtime_error("top level function is not a function");
-						}
-			#endif
-
-
-		}
+		next_available_complex_ += sys.NumNaturalFunctions();
 
 
-
-
-
-		
 		// always have space derivatives
 
 		auto ds_dx = sys.GetSpaceDerivatives(); // a linear object, so can just run down the object
 		slp_under_construction_.number_of_.Jacobian = ds_dx.size();
 		slp_under_construction_.output_locations_.Jacobian = next_available_complex_;
-		for (auto n: ds_dx)
-		{
-			locations_top_level_functions_and_derivatives_[n] = next_available_complex_; // don't increment yet, we're listing it a few places. this is for an optimization that elides a copy for assignment.
-			locations_encountered_nodes_[n] = next_available_complex_++;
-		}
-
-
+		next_available_complex_ += ds_dx.size();
 
 
 		// sometimes have time derivatives
+		std::vector<std::shared_ptr<node::Node>> ds_dt;
 		if (sys.HavePathVariable()) {
 			
-			auto ds_dt = sys.GetTimeDerivatives();  // a linear object, so can just run down the object
+			ds_dt = sys.GetTimeDerivatives();  // a linear object, so can just run down the object
 			slp_under_construction_.number_of_.TimeDeriv = ds_dt.size();
 			slp_under_construction_.output_locations_.TimeDeriv = next_available_complex_; // note the start of the block in memory.  the size was also recorded in the previous line.
-			for (auto n: ds_dt)
-			{
-				locations_top_level_functions_and_derivatives_[n] = next_available_complex_; // don't increment yet, we're listing it a few places. this is for an optimization that elides a copy for assignment.
-				locations_encountered_nodes_[n] = next_available_complex_++;
-			}
+			next_available_complex_ += ds_dt.size();
 		}
 
 
-
-
-
 		// now we're actually ready to start visiting using recursion, since we've recorded the locations of inputs and outputs.
-		
-		for (auto& f: sys.GetNaturalFunctions())
-		{
-			f->shared_from_this();
-			f->Accept(*this);
-
-			// post visit function
-			/* code */
-		}
+		// a node is only registered as encountered once its value has been computed, because functions can appear in each other, in any order, and repeatedly.
+		auto compile_into = [this](std::shared_ptr<node::Node> const& n, size_t output_location){
+			if (locations_encountered_nodes_.find(n) == locations_encountered_nodes_.end())
+				n->Accept(*this);
 
+			slp_under_construction_.AddInstruction(Assign, locations_encountered_nodes_[n], output_location);
+		};
 
+		size_t output_location = slp_under_construction_.output_locations_.Functions;
+		for (auto const& f: sys.GetNaturalFunctions())
+			compile_into(f, output_location++);
 
-		
 		// always do derivatives with respect to space variables
-		for (auto n: ds_dx)
-			n->Accept(*this);
-
-
+		output_location = slp_under_construction_.output_locations_.Jacobian;
+		for (auto const& n: ds_dx)
+			compile_into(n, output_location++);
 
-
-		// sometimes have time derivatives
-		if (sys.HavePathVariable()) {
-			
-			// we need derivatives with respect to time only if the system has a path variable defined
-			auto ds_dt = sys.GetTimeDerivatives();  // a linear object, so can just run down the object
-			for (auto n: ds_dt)
-				n->Accept(*this);
-		}
+		// we need derivatives with respect to time only if the system has a path variable defined
+		output_location = slp_under_construction_.output_locations_.TimeDeriv;
+		for (auto const& n: ds_dt)
+			compile_into(n, output_location++);
 
 
 		// adjust the sizes of the memory blocks to match the number expected via compilation
@@ -872,6 +820,7 @@ namespace bertini{
 		next_available_int_ = 0;
 
 		locations_encountered_nodes_.clear();
+		locations_integers_.clear();
 		slp_under_construction_ = SLP();
 	}
 
-- 
2.43.0


From 9a38deee22108b8b54b5d9b8438eca7a0aed5a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:29 +0000
Subject: [PATCH 23/76] fix: straight line programs keep track of evaluation
 per number type and evaluate numbers to their precision

---
 .../bertini2/system/straight_line_program.hpp | 24 +++++++++++++------
 core/src/system/straight_line_program.cpp     | 12 +++++++---
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/core/include/bertini2/system/straight_line_program.hpp b/core/include/bertini2/system/straight_line_program.hpp
index fd2f7b1..1018fd5 100644
--- a/core/include/bertini2/system/straight_line_program.hpp
+++ b/core/include/bertini2/system/straight_line_program.hpp
@@ -355,7 +355,7 @@ namespace bertini {
 		 */
 		template<typename NumT>
 		void GetFuncValsInPlace(Vec<NumT> & result) const{
-			if (!is_evaluated_)
+			if (!IsEvaluated<NumT>())
 				this->EvalFunctions<NumT>();
 
 			auto& memory =  std::get<std::vector<NumT>>(memory_);
@@ -379,7 +379,7 @@ namespace bertini {
 
 		template<typename NumT>
 		void GetJacobianInPlace(Mat<NumT> & result) const{
-			if (!is_evaluated_)
+			if (!IsEvaluated<NumT>())
 				this->EvalJacobian<NumT>();
 
 			auto& memory =  std::get<std::vector<NumT>>(memory_);
@@ -405,7 +405,7 @@ namespace bertini {
 
 		template<typename NumT>
 		void GetTimeDerivInPlace(Vec<NumT> & result) const{
-			if (!is_evaluated_)
+			if (!IsEvaluated<NumT>())
 				this->EvalTimeDeriv<NumT>();
 
 			auto& memory =  std::get<std::vector<NumT>>(memory_);
@@ -520,7 +520,7 @@ namespace bertini {
 				//assign  to memory
 				memory[ii + input_locations_.Variables] = variable_values(ii);
 			}
-			is_evaluated_ = false;
+			IsEvaluated<NumT>() = false;
 		}
 
 		/**
@@ -549,7 +549,7 @@ namespace bertini {
 			auto& memory =  std::get<std::vector<ComplexT>>(memory_); // unpack for local reference
 
 			memory[input_locations_.Time] = time;
-			is_evaluated_ = false;
+			IsEvaluated<ComplexT>() = false;
 		}
 
 
@@ -609,7 +609,16 @@ namespace bertini {
 		std::vector<size_t> instructions_; //< The instructions.  The opcodes are  stored as size_t's, as well as the locations of operands and results.
 		std::vector< std::pair<Nd,size_t> > true_values_of_numbers_; //< the size_t is where in memory to downsample to.
 
-		mutable bool is_evaluated_ = false;
+		mutable bool is_evaluated_dbl_ = false;
+		mutable bool is_evaluated_mpfr_ = false;
+
+		/**
+		 \brief Whether the outputs in memory of a number type are up to date with the inputs of that type.
+		 */
+		template<typename NumT>
+		bool& IsEvaluated() const{
+			return std::is_same<NumT,dbl_complex>::value ? is_evaluated_dbl_ : is_evaluated_mpfr_;
+		}
 
 
 
@@ -632,7 +641,8 @@ namespace bertini {
 			ar & instructions_;
 			ar & true_values_of_numbers_;
 
-			ar & is_evaluated_;
+			ar & is_evaluated_dbl_;
+			ar & is_evaluated_mpfr_;
 		}
 
 	};
diff --git a/core/src/system/straight_line_program.cpp b/core/src/system/straight_line_program.cpp
index 5391488..3a30aa3 100644
--- a/core/src/system/straight_line_program.cpp
+++ b/core/src/system/straight_line_program.cpp
@@ -78,6 +78,7 @@ namespace bertini{
 				auto& n = std::get<Nd>(p);
 				auto& loc = std::get<size_t>(p);
 
+				n->precision(new_precision); // so that the number is evaluated to the new precision
 				mem[loc] = n->Eval<mpfr_complex>();
 			}
 
@@ -85,6 +86,7 @@ namespace bertini{
 				Precision(n, new_precision);
 
 			this->precision_ = new_precision;
+			IsEvaluated<mpfr_complex>() = false;
 		}
 
 
@@ -216,7 +218,7 @@ namespace bertini{
 #endif
 
 
-		if (is_evaluated_)
+		if (IsEvaluated<NumT>())
 			return;
 
 		for (int ii = 0; ii<instructions_.size();/*the increment is done at end of loop depending on arity */) {
@@ -308,7 +310,7 @@ namespace bertini{
 			}
 		} // for loop around operations
 
-		is_evaluated_ = true;
+		IsEvaluated<NumT>() = true;
 	}
 
 	template void StraightLineProgram::Eval<dbl_complex>() const;
@@ -319,6 +321,7 @@ namespace bertini{
 	void StraightLineProgram::CopyNumbersIntoMemory() const
 	{
 		for (auto const& x: true_values_of_numbers_){
+			x.first->precision(this->precision_);
 			GetMemory<NumT>()[x.second] = (x.first)->Eval<NumT>();
 			if (std::is_same<NumT,mpfr_complex>::value)
 				Precision(GetMemory<NumT>()[x.second], this->precision_);
@@ -725,7 +728,7 @@ namespace bertini{
 	SLP SLPCompiler::Compile(System const& sys){
 		this->Clear();
 
-		this->slp_under_construction_.precision_ = DefaultPrecision();
+		this->slp_under_construction_.precision_ = sys.precision();
 
 		// deal with variables
 		
@@ -807,6 +810,9 @@ namespace bertini{
 		slp_under_construction_.GetMemory<mpfr_complex>().resize(next_available_complex_);
 
 
+		for (auto& n : slp_under_construction_.GetMemory<mpfr_complex>())
+			Precision(n, slp_under_construction_.precision_);
+
 		// downsample to get ready for evaluation
 		slp_under_construction_.CopyNumbersIntoMemory<dbl_complex>();
 		slp_under_construction_.CopyNumbersIntoMemory<mpfr_complex>();
-- 
2.43.0


From 673a1811c92442f6ba826779ac754aa6cfdaa324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:16 +0000
Subject: [PATCH 24/76] fix: implicit parameters in straight line programs

---
 .../include/bertini2/system/straight_line_program.hpp | 10 ++++++----
 core/include/bertini2/system/system.hpp               | 11 +++++++++++
 core/src/system/straight_line_program.cpp             |  4 +++-
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/core/include/bertini2/system/straight_line_program.hpp b/core/include/bertini2/system/straight_line_program.hpp
index 1018fd5..4a63577 100644
--- a/core/include/bertini2/system/straight_line_program.hpp
+++ b/core/include/bertini2/system/straight_line_program.hpp
@@ -559,6 +559,12 @@ namespace bertini {
 
 		using IntT = int;  // this needs to co-vary on the stored type inside the node.  node should stop using mpz, it's slow.
 
+		/**
+		 \brief Copy the current values of numbers, and of variables which aren't inputs to the program, into memory.
+		 */
+		template<typename NumT>
+		void CopyNumbersIntoMemory() const;
+
 		private:
 
 		/**
@@ -592,10 +598,6 @@ namespace bertini {
 		}
 
 
-		template<typename NumT>
-		void CopyNumbersIntoMemory() const;
-
-
 		mutable unsigned precision_ = 16; //< The current working number of digits
 		bool has_path_variable_ = false; //< Does this SLP have a path variable?
 
diff --git a/core/include/bertini2/system/system.hpp b/core/include/bertini2/system/system.hpp
index 62d085b..9acc2c4 100644
--- a/core/include/bertini2/system/system.hpp
+++ b/core/include/bertini2/system/system.hpp
@@ -1069,6 +1069,17 @@ namespace bertini {
 			for (auto iter=implicit_parameters_.begin(); iter!=implicit_parameters_.end(); iter++, counter++)
 				(*iter)->set_current_value(new_values(counter));
 
+			switch (eval_method_){
+				case EvalMethod::FunctionTree:{
+					Reset();
+					break;
+				}
+				case EvalMethod::SLP:{
+					if (is_differentiated_)
+						slp_.CopyNumbersIntoMemory<T>();
+					break;
+				}
+			}
 		}
 
 
diff --git a/core/src/system/straight_line_program.cpp b/core/src/system/straight_line_program.cpp
index 3a30aa3..fd64a39 100644
--- a/core/src/system/straight_line_program.cpp
+++ b/core/src/system/straight_line_program.cpp
@@ -326,6 +326,7 @@ namespace bertini{
 			if (std::is_same<NumT,mpfr_complex>::value)
 				Precision(GetMemory<NumT>()[x.second], this->precision_);
 		}
+		IsEvaluated<NumT>() = false;
 	}
 
 	template void StraightLineProgram::CopyNumbersIntoMemory<dbl_complex>() const;
@@ -345,7 +346,8 @@ namespace bertini{
 
 
 	void SLPCompiler::Visit(node::Variable const& n){
-
+		// the variables and the path variable have their locations already.  anything else, such as an implicit parameter, is not an input to the program, but rather something holding a value.
+		this->DealWithNumber(n);
 	}
 
 
-- 
2.43.0


From b8078265afc09781bf2319bc73eb0cce1260752d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:10 +0000
Subject: [PATCH 25/76] fix: constant powers are homogeneous

---
 core/src/function_tree/operators/arithmetic.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/src/function_tree/operators/arithmetic.cpp b/core/src/function_tree/operators/arithmetic.cpp
index d5e8172..484c6fa 100644
--- a/core/src/function_tree/operators/arithmetic.cpp
+++ b/core/src/function_tree/operators/arithmetic.cpp
@@ -1056,7 +1056,11 @@ void PowerOperator::Homogenize(VariableGroup const& vars, std::shared_ptr<Variab
 
 bool PowerOperator::IsHomogeneous(std::shared_ptr<Variable> const& v) const
 {
-	// the only hope this has of being homogeneous, is that the degree of the exponent is 0 (it's constant), and that it's an integer
+	// something constant with respect to the variables is homogeneous of degree 0
+	if (base_->Degree(v)==0 && exponent_->Degree(v)==0)
+		return true;
+
+	// otherwise, the only hope this has of being homogeneous, is that the degree of the exponent is 0 (it's constant), and that it's an integer
 	if (exponent_->Degree()==0)
 	{
 		auto exp_val = exponent_->Eval<dbl>();
@@ -1071,7 +1075,11 @@ bool PowerOperator::IsHomogeneous(std::shared_ptr<Variable> const& v) const
 
 bool PowerOperator::IsHomogeneous(VariableGroup const& v) const
 {
-	// the only hope this has of being homogeneous, is that the degree of the exponent is 0 (it's constant), and that it's an integer
+	// something constant with respect to the variables is homogeneous of degree 0
+	if (base_->Degree(v)==0 && exponent_->Degree(v)==0)
+		return true;
+
+	// otherwise, the only hope this has of being homogeneous, is that the degree of the exponent is 0 (it's constant), and that it's an integer
 	if (exponent_->Degree()==0)
 	{
 		auto exp_val = exponent_->Eval<dbl>();
-- 
2.43.0


From 5f00446c1d48c4f37e1aca83d700dda6dc8ed64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:14 +0000
Subject: [PATCH 26/76] fix: the jacobian of a patch is zero outside of the
 blocks of its variable groups

---
 core/include/bertini2/system/patch.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/include/bertini2/system/patch.hpp b/core/include/bertini2/system/patch.hpp
index a98fb82..d010882 100644
--- a/core/include/bertini2/system/patch.hpp
+++ b/core/include/bertini2/system/patch.hpp
@@ -369,6 +369,10 @@ namespace bertini {
 			const std::vector<Vec<T> >& coefficients = std::get<std::vector<Vec<T> > >(coefficients_working_);
 
 			unsigned offset(jacobian.rows() - NumVariableGroups()); // by precondition this number is at least 0.  the precondition is ensured by the public wrapper
+			for (unsigned ii = 0; ii < NumVariableGroups(); ++ii)
+				for (unsigned jj = 0; jj < NumVariables(); ++jj)
+					jacobian(ii+offset,jj) = T(0); // a patch equation only involves the variables of its own group
+
 			unsigned counter(0);
 			for (unsigned ii = 0; ii < NumVariableGroups(); ++ii)
 				for (unsigned jj=0; jj<variable_group_sizes_[ii]; ++jj)
-- 
2.43.0


From 68865f9282c89ffe49fed88fbbbe2e5eb45c6b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:32 +0000
Subject: [PATCH 27/76] fix: adding systems compares the numbers of their own
 functions, not of patches

---
 core/src/system/system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index 024146e..3b98610 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -1312,7 +1312,7 @@ namespace bertini
 
 	System& System::operator+=(System const& rhs)
 	{
-		if (this->NumTotalFunctions()!=rhs.NumTotalFunctions())
+		if (this->NumNaturalFunctions()!=rhs.NumNaturalFunctions())
 			throw std::runtime_error("cannot add two Systems with differing numbers of functions");
 
 		if (this->NumVariables()!=rhs.NumVariables())
-- 
2.43.0


From 1b27a5d467b3dbcd357d1617a7fa696c2a09620f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:34 +0000
Subject: [PATCH 28/76] fix: differentials are archived with their variable

---
 .../bertini2/function_tree/symbols/differential.hpp    | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/core/include/bertini2/function_tree/symbols/differential.hpp b/core/include/bertini2/function_tree/symbols/differential.hpp
index 1406f27..5e36eaa 100644
--- a/core/include/bertini2/function_tree/symbols/differential.hpp
+++ b/core/include/bertini2/function_tree/symbols/differential.hpp
@@ -150,18 +150,20 @@ namespace node{
 		void save(Archive & ar, const unsigned int version) const
 		{
 			ar & boost::serialization::base_object<NamedSymbol>(*this);
-			ar & differential_variable_;
-			// ar & const_cast<std::shared_ptr<const Variable> >(differential_variable_);
+			auto v = std::const_pointer_cast<Variable>(differential_variable_);
+			ar & v;
 		}
 		
 		template<class Archive>
 		void load(Archive & ar, const unsigned int version)
 		{
 			ar & boost::serialization::base_object<NamedSymbol>(*this);
-			ar & std::const_pointer_cast<Variable>(differential_variable_);
+			std::shared_ptr<Variable> v;
+			ar & v;
+			differential_variable_ = v;
 		}
 		
-		// BOOST_SERIALIZATION_SPLIT_MEMBER()
+		BOOST_SERIALIZATION_SPLIT_MEMBER()
 
 	};
 
-- 
2.43.0


From 94402c40f0c47ae5e4d13e8c1387727be2c2d105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:03 +0000
Subject: [PATCH 29/76] fix: copies of patches keep their working precision

---
 core/include/bertini2/system/patch.hpp | 5 +++--
 core/src/system/system.cpp             | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/include/bertini2/system/patch.hpp b/core/include/bertini2/system/patch.hpp
index d010882..3d7a9a7 100644
--- a/core/include/bertini2/system/patch.hpp
+++ b/core/include/bertini2/system/patch.hpp
@@ -102,7 +102,7 @@ namespace bertini {
 		Patch(Patch const& other)
 		{	
 			variable_group_sizes_ = other.variable_group_sizes_;
-			precision_ = DefaultPrecision();
+			precision_ = other.precision_;
 
 			// a little shorthand unpacking the tuple
 			std::vector<Vec<mpfr_complex> >& coefficients_mpfr = std::get<std::vector<Vec<mpfr_complex> > >(this->coefficients_working_);
@@ -127,7 +127,8 @@ namespace bertini {
 					coefficients_highest_precision_[ii](jj) = other.coefficients_highest_precision_[ii](jj);
 
 					coefficients_dbl[ii](jj) = dbl(coefficients_highest_precision_[ii](jj));
-					coefficients_mpfr[ii](jj) = mpfr_complex(coefficients_highest_precision_[ii](jj));
+					coefficients_mpfr[ii](jj) = coefficients_highest_precision_[ii](jj);
+					coefficients_mpfr[ii](jj).precision(precision_);
 
 					assert(coefficients_highest_precision_[ii](jj) == other.coefficients_highest_precision_[ii](jj));
 				}
diff --git a/core/src/system/system.cpp b/core/src/system/system.cpp
index 3b98610..e491312 100644
--- a/core/src/system/system.cpp
+++ b/core/src/system/system.cpp
@@ -925,6 +925,7 @@ namespace bertini
 			throw std::runtime_error("trying to copy patch from unpatched other system.  may only copy patch from a system which is already patched.");
 
 		this->patch_ = other.patch_;
+		patch_.Precision(precision_);
 		is_patched_ = true;
 	}
 
-- 
2.43.0


From 9406661c17445ddd6893f4b2114b3b721f44d406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:07 +0000
Subject: [PATCH 30/76] fix: straight line programs holding values which are
 not finite can be archived

---
 .../bertini2/system/straight_line_program.hpp | 36 ++++++++++++++++---
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/core/include/bertini2/system/straight_line_program.hpp b/core/include/bertini2/system/straight_line_program.hpp
index 4a63577..5508515 100644
--- a/core/include/bertini2/system/straight_line_program.hpp
+++ b/core/include/bertini2/system/straight_line_program.hpp
@@ -636,15 +636,43 @@ namespace bertini {
 			ar & output_locations_;
 			ar & input_locations_;
 
-			ar & std::get<std::vector<dbl_complex>>(memory_);
-			ar & std::get<std::vector<mpfr_complex>>(memory_);
+			ArchiveMemory<dbl_complex>(ar);
+			ArchiveMemory<mpfr_complex>(ar);
 			ar & integers_;
 			
 			ar & instructions_;
 			ar & true_values_of_numbers_;
+		}
+
+		/**
+		 \brief Archive the memory of a number type, and whether it is up to date.
+
+		 Values which are not finite cannot be read back from a text archive.  They are zero in the archive, and the program has to be evaluated again after loading.
+		 */
+		template <typename NumT, typename Archive>
+		void ArchiveMemory(Archive& ar) {
+			bool is_evaluated = IsEvaluated<NumT>();
+			std::vector<NumT> values = GetMemory<NumT>();
+
+			if (Archive::is_saving::value)
+				for (auto& v : values)
+				{
+					using std::isfinite; using boost::multiprecision::isfinite;
+					if (!isfinite(v.real()) || !isfinite(v.imag()))
+					{
+						v = NumT(0);
+						is_evaluated = false;
+					}
+				}
 
-			ar & is_evaluated_dbl_;
-			ar & is_evaluated_mpfr_;
+			ar & values;
+			ar & is_evaluated;
+
+			if (Archive::is_loading::value)
+			{
+				GetMemory<NumT>() = values;
+				IsEvaluated<NumT>() = is_evaluated;
+			}
 		}
 
 	};
-- 
2.43.0


From cc5f0fb37b951b8d2933a23e40bd3abdd3dfae8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:36 +0000
Subject: [PATCH 31/76] fix: midpath check starts afresh each time and
 recognizes equal start points

---
 core/include/bertini2/nag_algorithms/midpath_check.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/include/bertini2/nag_algorithms/midpath_check.hpp b/core/include/bertini2/nag_algorithms/midpath_check.hpp
index c7ead7f..7ca01f4 100644
--- a/core/include/bertini2/nag_algorithms/midpath_check.hpp
+++ b/core/include/bertini2/nag_algorithms/midpath_check.hpp
@@ -134,6 +134,10 @@ namespace bertini{
 			template <typename StartSystemT>
 			bool Check(BoundaryData const& boundary_data, StartSystemT const& start_system)
 			{
+				// the verdict is about this data, not about what was checked before.
+				crossed_paths_.clear();
+				passed_ = true;
+
 				for (PathIndT ii = 0; ii < boundary_data.size(); ++ii)
 				{
 					if ( boundary_data[ii].success_code != SuccessCode::Success)
@@ -158,7 +162,7 @@ namespace bertini{
 							
 							const auto start_jj = start_system.template StartPoint<ComplexType>(jj);
 							auto diff_start = start_ii - start_jj;
-							bool same_start = (diff_start.template lpNorm<Eigen::Infinity>() > SamePointTol());
+							bool same_start = (diff_start.template lpNorm<Eigen::Infinity>() < SamePointTol());
 							
 							
 							// Check if path has already been stored in crossed_paths_
@@ -209,7 +213,7 @@ namespace bertini{
 		private:
 			
 			std::vector<CrossedPath> crossed_paths_; // Data for all paths that crossed on last check
-			bool passed_;  // Did the check pass?
+			bool passed_ = true;  // Did the check pass?
 			
 			
 		}; //re: struct MidpathChecker
-- 
2.43.0


From 564d0131f2b195048483c3e5f6b2370eb7cb2c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:43 +0000
Subject: [PATCH 32/76] fix: midpath check finds paths which meet at the origin

---
 core/include/bertini2/nag_algorithms/midpath_check.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/bertini2/nag_algorithms/midpath_check.hpp b/core/include/bertini2/nag_algorithms/midpath_check.hpp
index 7ca01f4..c2759c6 100644
--- a/core/include/bertini2/nag_algorithms/midpath_check.hpp
+++ b/core/include/bertini2/nag_algorithms/midpath_check.hpp
@@ -154,7 +154,7 @@ namespace bertini{
 						const Vec<ComplexType>& solution_jj = boundary_data[jj].path_point;
 						const Vec<ComplexType> diff_sol = solution_ii - solution_jj;
 						
-						if ((diff_sol.template lpNorm<Eigen::Infinity>()/solution_ii.template lpNorm<Eigen::Infinity>()) < SamePointTol())
+						if (diff_sol.template lpNorm<Eigen::Infinity>() <= SamePointTol()*solution_ii.template lpNorm<Eigen::Infinity>()) // as a product, so that paths meeting at the origin are found
 						{
 							bool i_already_stored = false;
 							bool j_already_stored = false;
-- 
2.43.0


From b2a9ec236610181b1f063f4d9fe7328d999186e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:44 +0000
Subject: [PATCH 33/76] fix: coefficients of linear slices are at the working
 precision

---
 core/include/bertini2/system/slice.hpp | 34 +++++++++++++-------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/core/include/bertini2/system/slice.hpp b/core/include/bertini2/system/slice.hpp
index 38a26b2..e658197 100644
--- a/core/include/bertini2/system/slice.hpp
+++ b/core/include/bertini2/system/slice.hpp
@@ -158,25 +158,23 @@ namespace bertini {
 		*/
 		void Precision(unsigned new_precision) const
 		{
-			if (new_precision > DoublePrecision())
+			Mat<mpfr_complex>& coefficients_mpfr = std::get<Mat<mpfr_complex> >(coefficients_working_);
+			Vec<mpfr_complex>& constants_mpfr = std::get<Vec<mpfr_complex> >(constants_working_);
+			for (unsigned ii = 0; ii < Dimension(); ++ii)
 			{
-				Mat<mpfr_complex>& coefficients_mpfr = std::get<Mat<mpfr_complex> >(coefficients_working_);
-				Vec<mpfr_complex>& constants_mpfr = std::get<Vec<mpfr_complex> >(constants_working_);
-				for (unsigned ii = 0; ii < Dimension(); ++ii)
+				for (unsigned jj=0; jj<NumVariables(); ++jj)
 				{
-					for (unsigned jj=0; jj<NumVariables(); ++jj)
-					{
-						coefficients_mpfr(ii,jj).precision(new_precision);
-						if (new_precision>precision_)
-							coefficients_mpfr(ii,jj) = coefficients_highest_precision_(ii,jj);
-					}
-					
-					if (!is_homogeneous_)
-					{
-						constants_mpfr(ii).precision(new_precision);
-						if (new_precision>precision_)
-							constants_mpfr(ii) = constants_highest_precision_(ii);
-					}
+					// assignment preserves the precision of the source, so set the precision afterwards
+					if (new_precision>precision_)
+						coefficients_mpfr(ii,jj) = coefficients_highest_precision_(ii,jj);
+					coefficients_mpfr(ii,jj).precision(new_precision);
+				}
+				
+				if (!is_homogeneous_)
+				{
+					if (new_precision>precision_)
+						constants_mpfr(ii) = constants_highest_precision_(ii);
+					constants_mpfr(ii).precision(new_precision);
 				}
 			}
 			precision_ = new_precision;
@@ -285,6 +283,7 @@ namespace bertini {
 				{
 					std::get<Mat<dbl> >(s.coefficients_working_)(ii,jj) = dbl(s.coefficients_highest_precision_(ii,jj));
 					std::get<Mat<mpfr_complex> >(s.coefficients_working_)(ii,jj) = s.coefficients_highest_precision_(ii,jj);
+					std::get<Mat<mpfr_complex> >(s.coefficients_working_)(ii,jj).precision(s.precision_);
 				}
 
 			if (!homogeneous)
@@ -298,6 +297,7 @@ namespace bertini {
 					gen(s.constants_highest_precision_(ii), MaxPrecisionAllowed());
 					std::get<Vec<dbl> >(s.constants_working_)(ii) = dbl(s.constants_highest_precision_(ii));
 					std::get<Vec<mpfr_complex> >(s.constants_working_)(ii) = s.constants_highest_precision_(ii);
+					std::get<Vec<mpfr_complex> >(s.constants_working_)(ii).precision(s.precision_);
 				}
 			}
 
-- 
2.43.0


From d4513acde4de40717e280bd8be344a26c63c1506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:44 +0000
Subject: [PATCH 34/76] fix: homogeneous linear slices can be made

---
 core/include/bertini2/system/slice.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/bertini2/system/slice.hpp b/core/include/bertini2/system/slice.hpp
index e658197..edf2ece 100644
--- a/core/include/bertini2/system/slice.hpp
+++ b/core/include/bertini2/system/slice.hpp
@@ -221,7 +221,7 @@ namespace bertini {
 		/**
 		\brief the constructor for linear slices.
 		*/
-		LinearSlice(VariableGroup const& v, unsigned dim, bool homogeneous) : sliced_vars_(v), precision_(DefaultPrecision()), num_dims_sliced_(dim), coefficients_highest_precision_(dim, v.size()), is_homogeneous_(homogeneous), constants_highest_precision_(dim)
+		LinearSlice(VariableGroup const& v, unsigned dim, bool homogeneous) : sliced_vars_(v), precision_(DefaultPrecision()), num_dims_sliced_(dim), coefficients_highest_precision_(dim, v.size()), is_homogeneous_(homogeneous), constants_highest_precision_(homogeneous ? 0 : dim)
 		{ 
 			std::get<Mat<dbl> > (coefficients_working_).resize(Dimension(), NumVariables());
 			std::get<Mat<mpfr_complex> >(coefficients_working_).resize(Dimension(), NumVariables());
-- 
2.43.0


From 1967c03c3df302516ec1edbee0d4d0a6ab97fb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:44 +0000
Subject: [PATCH 35/76] fix: linear slices are archived with their constants
 and dimension

---
 core/include/bertini2/system/slice.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/include/bertini2/system/slice.hpp b/core/include/bertini2/system/slice.hpp
index edf2ece..3b6c315 100644
--- a/core/include/bertini2/system/slice.hpp
+++ b/core/include/bertini2/system/slice.hpp
@@ -325,7 +325,15 @@ namespace bertini {
 
 			ar & std::get<0>(coefficients_working_);
 			ar & std::get<1>(coefficients_working_);
+
+			ar & constants_highest_precision_;
+
+			ar & std::get<0>(constants_working_);
+			ar & std::get<1>(constants_working_);
+
 			ar & sliced_vars_;
+			ar & num_dims_sliced_;
+			ar & is_homogeneous_;
 		}
 
 		friend std::ostream& operator<<(std::ostream&, LinearSlice const&);
-- 
2.43.0


From 69aaed57ed9075d5b117a9167fb6f5b6ffe13656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:14 +0000
Subject: [PATCH 36/76] fix: random multiprecision unit numbers have modulus
 one

---
 core/include/bertini2/random.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/bertini2/random.hpp b/core/include/bertini2/random.hpp
index 7485052..6240d9d 100644
--- a/core/include/bertini2/random.hpp
+++ b/core/include/bertini2/random.hpp
@@ -215,7 +215,7 @@ using bertini::RandomMp;
 	inline complex rand_unit()
 	{
 		complex returnme( RandomMp(mpfr_float(-1),mpfr_float(1)), RandomMp(mpfr_float(-1),mpfr_float(1)) );
-		return returnme / sqrt( abs(returnme));
+		return returnme / abs(returnme);
 	}
 
 	inline complex RandomUnit()
@@ -256,7 +256,7 @@ using bertini::RandomMp;
 		a.precision(num_digits);
 		
 		complex temp(RandomMp(num_digits),RandomMp(num_digits));
-		a = std::move(temp/sqrt(abs(temp)));
+		a = temp/abs(temp);
 		DefaultPrecision(cached);
 	}
 
-- 
2.43.0


From 10fda8e91993739047b88dbcf88bfd7a7c420489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:11 +0000
Subject: [PATCH 37/76] fix: rationals convert to the full precision asked for

---
 core/include/bertini2/num_traits.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/include/bertini2/num_traits.hpp b/core/include/bertini2/num_traits.hpp
index 51a10c7..79b0b4e 100644
--- a/core/include/bertini2/num_traits.hpp
+++ b/core/include/bertini2/num_traits.hpp
@@ -266,7 +266,10 @@ namespace bertini {
 		inline static
 		mpfr_float FromRational(mpq_rational const& n, unsigned precision)
 		{
-			return mpfr_float(n,precision);
+			mpfr_float result;
+			result.precision(precision);
+			mpfr_set_q(result.backend().data(), n.backend().data(), MPFR_RNDN); // straight to the precision asked for, not by way of the default precision
+			return result;
 		}
 
 		using Real = mpfr_float;
@@ -297,7 +300,9 @@ namespace bertini {
 		inline static
 		mpfr_complex FromRational(mpq_rational const& n, unsigned precision)
 		{
-			return mpfr_complex(n,0,precision);
+			mpfr_complex result(NumTraits<mpfr_float>::FromRational(n,precision));
+			result.precision(precision);
+			return result;
 		}
 
 		using Real = mpfr_float;
-- 
2.43.0


From 3df76790d57818df0bb5d558f507ce6e854e4284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:00 +0000
Subject: [PATCH 38/76] fix: multihomogeneous start points fit homogenized and
 patched systems, and groups of any size

---
 core/src/system/start/mhom.cpp | 86 +++++++++++++++++++++-------------
 1 file changed, 53 insertions(+), 33 deletions(-)

diff --git a/core/src/system/start/mhom.cpp b/core/src/system/start/mhom.cpp
index e237a43..02c5700 100644
--- a/core/src/system/start/mhom.cpp
+++ b/core/src/system/start/mhom.cpp
@@ -225,15 +225,12 @@ namespace bertini
 			Vec<int> current_partition = -1*Vec<int>::Ones(target_system.NumNaturalFunctions());
 			Vec<int> variable_group_counter = Vec<int>::Zero(target_system.NumTotalVariableGroups());
 
-			auto size_of_each_var_gp = target_system.VariableGroupSizes(); //K
-			
-
-
-
-
+			// the groups are in the order of the columns of the degree matrix, and without homogenizing variables.  the patch takes care of one dimension of a homogeneous variable group.
 			for(int ii = 0; ii < target_system.NumTotalVariableGroups(); ++ii)
 			{
-				variable_group_counter[ii] = size_of_each_var_gp[ii];
+				variable_group_counter[ii] = var_groups_[ii].size();
+				if (ii < target_system.NumHomVariableGroups() && target_system.IsPatched())
+					--variable_group_counter[ii];
 			}			    
 			// std::cout << "variable_group_counter is " << std::endl;
 			// std::cout << variable_group_counter << std::endl;		
@@ -383,37 +380,60 @@ namespace bertini
 			
 			
 			
-			// Create a linear system to solve.
-			size_t num_grouped_variables = NumNaturalVariables() - NumUngroupedVariables();
-			Mat<T> A(partition.size(), num_grouped_variables);
-			Vec<T> v(num_grouped_variables);
-			Vec<T> b(partition.size());
-			
+			// Create a linear system to solve, for the variables of all groups in the order of var_groups_.
+			// the coordinates in a homogeneous variable group are determined up to scale only, so each gets one more equation, if the patch is there to settle the scale.
+			VariableGroup grouped_variables;
+			for (auto const& g : var_groups_)
+				grouped_variables.insert(grouped_variables.end(), g.begin(), g.end());
+
+			const size_t num_scales = IsPatched() ? NumHomVariableGroups() : 0;
+			const size_t num_rows = partition.size() + num_scales;
+			Mat<T> A(num_rows, grouped_variables.size());
+			Vec<T> b(num_rows);
+
+			for(int ii = 0; ii < num_rows; ++ii)
+			{
+				for(int jj = 0; jj < A.cols(); ++jj)
+					A(ii,jj) = T(0);
+				b(ii) = T(0);
+			}
+
 			for(int ii = 0; ii < partition.size(); ++ii)
 			{
-				v.setZero();
-				std::vector<size_t> cols = variable_cols_[partition[ii]];
-				auto coeff = linprod_matrix_(ii,partition[ii])->GetCoeffs<T>(subscript[ii]);
-				for(int jj = 0; jj < cols.size(); ++jj)
+				auto const& cols = variable_cols_[partition[ii]];
+				Mat<mpq_rational> coeff_real, coeff_imag;
+				linprod_matrix_(ii,partition[ii])->GetRatCoeffs(coeff_real, coeff_imag);
+
+				auto coeff = [&](size_t jj)
 				{
-					v(cols[jj]) = coeff[jj];
-				}
-				
-				A.row(ii) = v;
-				b(ii) = -coeff[cols.size()];
+					auto p = DefaultPrecision();
+					return T( NumTraits<T>::FromRational(coeff_real(subscript[ii],jj), p).real(), NumTraits<T>::FromRational(coeff_imag(subscript[ii],jj), p).real() );
+				};
+
+				for(int jj = 0; jj < cols.size(); ++jj)
+					A(ii,cols[jj]) = coeff(jj);
+				b(ii) = -coeff(cols.size());
+			}
+
+			for(int ii = 0; ii < num_scales; ++ii)
+			{
+				for (auto c : variable_cols_[ii])
+					A(partition.size()+ii,c) = T(1);
+				b(partition.size()+ii) = T(1);
+			}
+
+			Vec<T> coordinates = A.partialPivLu().solve(b);
+
+			// put the coordinates where the system has its variables.  homogenizing variables are one.
+			auto const& ordering = Variables();
+			for (size_t ii = 0; ii < ordering.size(); ++ii)
+			{
+				auto pos = std::find(grouped_variables.begin(), grouped_variables.end(), ordering[ii]);
+				start_point(ii) = pos==grouped_variables.end() ? T(1) : coordinates(pos - grouped_variables.begin());
 			}
-			
-			start_point = A.partialPivLu().solve(b);
-			
-			
-			var_groups_[0][0]->set_current_value(start_point(0));
-			var_groups_[0][1]->set_current_value(start_point(1));
-			
-			std::shared_ptr<node::Node> f = Function(0);
-			// !!! superfluous line?
-			
-			
 
+			if (IsPatched())
+				RescalePointToFitPatchInPlace(start_point);
 		}
 		
 		
-- 
2.43.0


From fa08fc9c2ef7054dd675c5ddacea2d97d78e2020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:01 +0000
Subject: [PATCH 39/76] fix: multiplying start systems by a node ends

---
 core/src/system/start/mhom.cpp         | 2 +-
 core/src/system/start/total_degree.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/system/start/mhom.cpp b/core/src/system/start/mhom.cpp
index 02c5700..2e85cb6 100644
--- a/core/src/system/start/mhom.cpp
+++ b/core/src/system/start/mhom.cpp
@@ -101,7 +101,7 @@ namespace bertini
 		
 		MHomogeneous& MHomogeneous::operator*=(Nd const& n)
 		{
-			*this *= n;
+			System::operator*=(n);
 			return *this;
 		}
 		
diff --git a/core/src/system/start/total_degree.cpp b/core/src/system/start/total_degree.cpp
index 04d7f48..ddda8cc 100644
--- a/core/src/system/start/total_degree.cpp
+++ b/core/src/system/start/total_degree.cpp
@@ -52,7 +52,7 @@ namespace bertini {
 		
 		TotalDegree& TotalDegree::operator*=(Nd const& n)
 		{
-			*this *= n;
+			System::operator*=(n);
 			return *this;
 		}
 		
-- 
2.43.0


From f8f5332f115a144a3d3d47632efe8f6ae02b0f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:18 +0000
Subject: [PATCH 40/76] fix: linear products and their differentials are
 archived with what they hold

---
 .../function_tree/forward_declares.hpp        |  1 +
 .../function_tree/symbols/linear_product.hpp  | 23 ++++++++++++++++++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/core/include/bertini2/function_tree/forward_declares.hpp b/core/include/bertini2/function_tree/forward_declares.hpp
index c445755..0906f8b 100644
--- a/core/include/bertini2/function_tree/forward_declares.hpp
+++ b/core/include/bertini2/function_tree/forward_declares.hpp
@@ -109,6 +109,7 @@ namespace bertini {
 			ar.template register_type<bertini::node::NegateOperator>();
 			ar.template register_type<bertini::node::SqrtOperator>();
 			ar.template register_type<bertini::node::LinearProduct>();
+			ar.template register_type<bertini::node::DiffLinear>();
 			// ar.template register_type<bertini::node::TrigOperator>(); // abstract type
 			ar.template register_type<bertini::node::SinOperator>();
 			ar.template register_type<bertini::node::ArcSinOperator>();
diff --git a/core/include/bertini2/function_tree/symbols/linear_product.hpp b/core/include/bertini2/function_tree/symbols/linear_product.hpp
index c5f08fc..4049e2c 100644
--- a/core/include/bertini2/function_tree/symbols/linear_product.hpp
+++ b/core/include/bertini2/function_tree/symbols/linear_product.hpp
@@ -737,6 +737,20 @@ namespace  bertini {
 			template <typename Archive>
 			void serialize(Archive& ar, const unsigned version) {
 				ar & boost::serialization::base_object<Symbol>(*this);
+				ar & variables_;
+				ar & hom_variable_;
+				ar & num_factors_;
+				ar & num_variables_;
+				ar & is_rational_coeffs_;
+				ar & is_homogenized_;
+				ar & is_hom_vars_;
+				ar & coeffs_rat_real_;
+				ar & coeffs_rat_imag_;
+				ar & std::get<Mat<dbl>>(coeffs_);
+				ar & std::get<Mat<mpfr_complex>>(coeffs_);
+
+				temp_var_d_.resize(num_variables_ + 1);
+				temp_var_mp_.resize(num_variables_ + 1);
 			}
 			
 			
@@ -1106,7 +1120,14 @@ namespace  bertini {
 			
 			template <typename Archive>
 			void serialize(Archive& ar, const unsigned version) {
-				ar & boost::serialization::base_object<NaryOperator>(*this);
+				ar & boost::serialization::base_object<Symbol>(*this);
+				ar & variables_;
+				ar & hom_variable_;
+				ar & num_variables_;
+				ar & coeffs_rat_real_;
+				ar & coeffs_rat_imag_;
+				ar & std::get<Mat<dbl>>(coeffs_);
+				ar & std::get<Mat<mpfr_complex>>(coeffs_);
 			}
 			
 			
-- 
2.43.0


From 224c3d41f2f0dc02fcf647938db3665fad532789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:18 +0000
Subject: [PATCH 41/76] fix: logarithms and linear products can be archived by
 pointer to node

---
 core/include/bertini2/function_tree.hpp | 4 ++++
 core/src/function_tree/node.cpp         | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/core/include/bertini2/function_tree.hpp b/core/include/bertini2/function_tree.hpp
index 320ef12..ea4dacd 100644
--- a/core/include/bertini2/function_tree.hpp
+++ b/core/include/bertini2/function_tree.hpp
@@ -101,6 +101,10 @@ BOOST_CLASS_EXPORT_KEY(bertini::node::PowerOperator)
 BOOST_CLASS_EXPORT_KEY(bertini::node::IntegerPowerOperator)
 BOOST_CLASS_EXPORT_KEY(bertini::node::SqrtOperator)
 BOOST_CLASS_EXPORT_KEY(bertini::node::ExpOperator)
+BOOST_CLASS_EXPORT_KEY(bertini::node::LogOperator)
+
+BOOST_CLASS_EXPORT_KEY(bertini::node::LinearProduct)
+BOOST_CLASS_EXPORT_KEY(bertini::node::DiffLinear)
 
 
 
diff --git a/core/src/function_tree/node.cpp b/core/src/function_tree/node.cpp
index 3542635..eac52a8 100644
--- a/core/src/function_tree/node.cpp
+++ b/core/src/function_tree/node.cpp
@@ -54,6 +54,10 @@ BOOST_CLASS_EXPORT_IMPLEMENT(bertini::node::PowerOperator)
 BOOST_CLASS_EXPORT_IMPLEMENT(bertini::node::IntegerPowerOperator)
 BOOST_CLASS_EXPORT_IMPLEMENT(bertini::node::SqrtOperator)
 BOOST_CLASS_EXPORT_IMPLEMENT(bertini::node::ExpOperator)
+BOOST_CLASS_EXPORT_IMPLEMENT(bertini::node::LogOperator)
+
+BOOST_CLASS_EXPORT_IMPLEMENT(bertini::node::LinearProduct)
+BOOST_CLASS_EXPORT_IMPLEMENT(bertini::node::DiffLinear)
 
 
 
-- 
2.43.0


From 968a2c291227147199a6df1271b13356ba88b44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:37 +0000
Subject: [PATCH 42/76] fix: straight line programs of linear products; their
 degree in all variables and the homogenizing one

---
 .../function_tree/symbols/linear_product.hpp  | 13 +++++++
 .../bertini2/system/straight_line_program.hpp |  7 +++-
 core/src/function_tree/linear_product.cpp     | 37 +++++++++++++++----
 core/src/system/straight_line_program.cpp     |  8 ++++
 4 files changed, 56 insertions(+), 9 deletions(-)

diff --git a/core/include/bertini2/function_tree/symbols/linear_product.hpp b/core/include/bertini2/function_tree/symbols/linear_product.hpp
index 4049e2c..2e80800 100644
--- a/core/include/bertini2/function_tree/symbols/linear_product.hpp
+++ b/core/include/bertini2/function_tree/symbols/linear_product.hpp
@@ -390,6 +390,11 @@ namespace  bertini {
 				coeffs = coeffs_mpfr_ref;
 			}
 			
+			/**
+			 \brief The product of sums of numbers times variables, which is the same function as this.
+			*/
+			std::shared_ptr<Node> AsOperators() const;
+
 			/**
 			 \brief Are there rational coefficients?
 			*/
@@ -690,6 +695,14 @@ namespace  bertini {
             std::shared_ptr<LinearProduct> GetLinears(size_t index) const;
 
 			
+			/**
+			 \brief Get a coefficient of a linear factor, as a number node.
+
+			 \param index Index of the linear factor, starting at 0
+			 \param jj Index of the coefficient in that factor.  The constant coefficient is last.
+			 */
+			std::shared_ptr<Node> CoefficientNode(size_t index, size_t jj) const;
+
 			/**
 			 \brief Differentiate a single linear factor.
 
diff --git a/core/include/bertini2/system/straight_line_program.hpp b/core/include/bertini2/system/straight_line_program.hpp
index 5508515..d1300ab 100644
--- a/core/include/bertini2/system/straight_line_program.hpp
+++ b/core/include/bertini2/system/straight_line_program.hpp
@@ -710,10 +710,12 @@ namespace bertini {
 			public Visitor<node::TanOperator>,
 			public Visitor<node::ArcTanOperator>,
 
+			public Visitor<node::LinearProduct>,
+
 			public Visitor<node::special_number::Pi>,
 			public Visitor<node::special_number::E>
 
-			// also missing -- linears and difflinears.
+			// also missing -- difflinears.
 
 			// these abstract base types left out,
 
@@ -764,7 +766,8 @@ namespace bertini {
 
 			virtual void Visit(node::special_number::Pi const& n);
 			virtual void Visit(node::special_number::E const& n);
-			// missing -- linear and difflinear
+			virtual void Visit(node::LinearProduct const& n);
+			// missing -- difflinear
 		private:
 
 
diff --git a/core/src/function_tree/linear_product.cpp b/core/src/function_tree/linear_product.cpp
index f247ce3..4b3e32f 100644
--- a/core/src/function_tree/linear_product.cpp
+++ b/core/src/function_tree/linear_product.cpp
@@ -104,7 +104,7 @@ namespace  bertini {
 			int deg = 0;
 			
 			// If v is part of the linear product
-			if(std::find(variables_.begin(), variables_.end(), v) != std::end(variables_))
+			if(v == nullptr || v == hom_variable_ || std::find(variables_.begin(), variables_.end(), v) != std::end(variables_))
 			{
 				deg = num_factors_;
 			}
@@ -123,7 +123,7 @@ namespace  bertini {
 			for (auto v = vars.begin(); v != vars.end(); ++v)
 			{
 				// if v is a part of the linear product
-				if(std::find(variables_.begin(), variables_.end(), *v) != std::end(variables_))
+				if(*v == hom_variable_ || std::find(variables_.begin(), variables_.end(), *v) != std::end(variables_))
 				{
 					deg = num_factors_;
 					break;
@@ -143,7 +143,7 @@ namespace  bertini {
 			for (auto v = vars.begin(); v != vars.end(); ++v)
 			{
 				// If v is part of the linear product
-				if(std::find(variables_.begin(), variables_.end(), *v) != std::end(variables_))
+				if(*v == hom_variable_ || std::find(variables_.begin(), variables_.end(), *v) != std::end(variables_))
 				{
 					*(degs.begin()+(v-vars.begin())) = num_factors_;
 				}
@@ -328,10 +328,7 @@ namespace  bertini {
 				if (jj < num_variables_ ? variables_[jj] != v : hom_variable_ != v)
 					continue;
 
-				if (is_rational_coeffs_)
-					return Rational::Make(coeffs_rat_real_(index,jj), coeffs_rat_imag_(index,jj));
-				else
-					return Float::Make(std::get<Mat<mpfr_complex>>(coeffs_)(index,jj));
+				return CoefficientNode(index, jj);
 			}
 
 			return Integer::Make(0);
@@ -339,6 +336,32 @@ namespace  bertini {
 
 
 
+		std::shared_ptr<Node> LinearProduct::CoefficientNode(size_t index, size_t jj) const
+		{
+			if (is_rational_coeffs_)
+				return Rational::Make(coeffs_rat_real_(index,jj), coeffs_rat_imag_(index,jj));
+			else
+				return Float::Make(std::get<Mat<mpfr_complex>>(coeffs_)(index,jj));
+		}
+
+
+
+		std::shared_ptr<Node> LinearProduct::AsOperators() const
+		{
+			std::shared_ptr<Node> product = Integer::Make(1);
+			for (size_t ii = 0; ii < num_factors_; ++ii)
+			{
+				std::shared_ptr<Node> linear = CoefficientNode(ii, num_variables_) * hom_variable_;
+				for (size_t jj = 0; jj < num_variables_; ++jj)
+					linear = linear + CoefficientNode(ii, jj) * std::shared_ptr<Node>(variables_[jj]);
+
+				product = ii==0 ? linear : product * linear;
+			}
+			return product;
+		}
+
+
+
 		std::shared_ptr<LinearProduct> LinearProduct::GetLinears(size_t index) const
 		{
 			if(is_rational_coeffs_)
diff --git a/core/src/system/straight_line_program.cpp b/core/src/system/straight_line_program.cpp
index fd64a39..799f889 100644
--- a/core/src/system/straight_line_program.cpp
+++ b/core/src/system/straight_line_program.cpp
@@ -386,6 +386,14 @@ namespace bertini{
 	}
 
 
+	void SLPCompiler::Visit(node::LinearProduct const& n){
+		const std::shared_ptr<const node::LinearProduct> as_ptr = std::dynamic_pointer_cast<node::LinearProduct const>(n.shared_from_this());
+		const std::shared_ptr<node::Node> as_operators = n.AsOperators();
+
+		as_operators->Accept(*this);
+		this->locations_encountered_nodes_[as_ptr] = this->locations_encountered_nodes_[as_operators];
+	}
+
 	void SLPCompiler::Visit(node::Jacobian const& n){
 		throw std::runtime_error("unimplemented visit to node of type Jacobian");
 
-- 
2.43.0


From b2ae4895f18b7ba8918e350651ce49fc3d3569c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:30 +0000
Subject: [PATCH 43/76] fix: linear products keep the precision of the
 homogenizing coordinate

---
 core/include/bertini2/function_tree/symbols/linear_product.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/include/bertini2/function_tree/symbols/linear_product.hpp b/core/include/bertini2/function_tree/symbols/linear_product.hpp
index 2e80800..edfb586 100644
--- a/core/include/bertini2/function_tree/symbols/linear_product.hpp
+++ b/core/include/bertini2/function_tree/symbols/linear_product.hpp
@@ -225,6 +225,7 @@ namespace  bertini {
 				{
 					v->Reset();
 				}
+				hom_variable_->Reset();
 			};
 			
 			
@@ -325,6 +326,7 @@ namespace  bertini {
 				
 				for (auto iter : variables_)
 					iter->precision(prec);
+				hom_variable_->precision(prec);
 
 			};
 			
-- 
2.43.0


From cecd98ab41734da130f5128847ac33fcf23bc2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:34 +0000
Subject: [PATCH 44/76] fix: multihomogeneous and user start systems are
 archived with what they hold

---
 core/include/bertini2/system/start/mhom.hpp |  5 +++++
 core/include/bertini2/system/start/user.hpp | 24 ++++++++++-----------
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/core/include/bertini2/system/start/mhom.hpp b/core/include/bertini2/system/start/mhom.hpp
index 7bea77a..24a7348 100644
--- a/core/include/bertini2/system/start/mhom.hpp
+++ b/core/include/bertini2/system/start/mhom.hpp
@@ -136,6 +136,11 @@ namespace bertini
 			{
 				ar & boost::serialization::base_object<StartSystem>(*this);
 				ar & degrees_;
+				ar & degree_matrix_;
+				ar & valid_partitions_;
+				ar & var_groups_;
+				ar & linprod_matrix_;
+				ar & variable_cols_;
 			}
 
 		};
diff --git a/core/include/bertini2/system/start/user.hpp b/core/include/bertini2/system/start/user.hpp
index 647a47a..ed2815f 100644
--- a/core/include/bertini2/system/start/user.hpp
+++ b/core/include/bertini2/system/start/user.hpp
@@ -64,7 +64,7 @@ namespace bertini
 		class User : public StartSystem
 		{
 		public:
-			User() = delete; // deleted because requires a reference to a System to construct
+			User() = delete; // deleted because requires a System to construct
 			virtual ~User() = default;
 
 			/**
@@ -109,7 +109,7 @@ namespace bertini
 				ar & boost::serialization::base_object<StartSystem>(*this);
 			}
 
-			const bertini::System& user_system_;
+			const bertini::System user_system_;
 			std::tuple<SampCont<dbl>, SampCont<mpfr_complex>> solns_;
 			bool solns_in_dbl_;
 		};
@@ -141,17 +141,15 @@ inline void load_construct_data(
     bool solns_in_dbl;
     ar >> solns_in_dbl;
 
+    bertini::SampCont<bertini::dbl> solns_dbl;
+    ar >> solns_dbl;
+
+    bertini::SampCont<bertini::mpfr_complex> solns_mp;
+    ar >> solns_mp;
+
     if (solns_in_dbl)
-    {
-    	bertini::SampCont<bertini::dbl> solns;
-    	ar >> solns;
-    	::new(t)bertini::start_system::User(sys, solns);
-    }
-	else
-	{
-		bertini::SampCont<bertini::mpfr_complex> solns;
-		ar >> solns;
-		::new(t)bertini::start_system::User(sys, solns);
-	}
+    	::new(t)bertini::start_system::User(sys, solns_dbl);
+    else
+    	::new(t)bertini::start_system::User(sys, solns_mp);
 }
 }}
-- 
2.43.0


From 976b30f70058aaf51db667febada5bc684bfe274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:02 +0000
Subject: [PATCH 45/76] fix: signs apply to the factor they precede, and
 numbers may have any exponent, in function text

---
 .../bertini2/io/parsing/function_rules.hpp    | 32 +++++++++++++++----
 .../bertini2/io/parsing/number_rules.hpp      | 16 +++++++---
 2 files changed, 37 insertions(+), 11 deletions(-)

diff --git a/core/include/bertini2/io/parsing/function_rules.hpp b/core/include/bertini2/io/parsing/function_rules.hpp
index 3dcdf40..fabdf2c 100644
--- a/core/include/bertini2/io/parsing/function_rules.hpp
+++ b/core/include/bertini2/io/parsing/function_rules.hpp
@@ -182,11 +182,19 @@ namespace bertini {
 						 )
 					;
 					
+					// signs bind tighter than * and /, and looser than ^
 					factor_.name("factor_");
 					factor_ =
+					(lit('-') > factor_  [_val = -_1])
+					|   (lit('+') > factor_  [_val = _1])
+					|   power_ [_val = _1]
+					;
+					
+					power_.name("power_");
+					power_ =
 					exp_elem_ [_val = _1]
 					>> *(lit('^') // any number of ^somethings
-						 > exp_elem_ [ phx::bind( []
+						 > exponent_ [ phx::bind( []
 												 (std::shared_ptr<Node> & B, std::shared_ptr<Node> P)
 												 {
 													 B = pow(B,P);
@@ -194,12 +202,18 @@ namespace bertini {
 												 _val,_1)] )
 					;
 					
+					exponent_.name("exponent_");
+					exponent_ =
+					(signed_number_ >> !qi::alnum) [_val = _1]
+					|   (lit('-') > exponent_  [_val = -_1])
+					|   (lit('+') > exponent_  [_val = _1])
+					|   exp_elem_ [_val = _1]
+					;
+					
 					exp_elem_.name("exp_elem_");
 					exp_elem_ =
 					(symbol_  >> !qi::alnum) [_val = _1]
 					|   ( '(' > expression_  [_val = _1] > ')'  ) // using the > expectation here.
-					|   (lit('-') > expression_  [_val = -_1])
-					|   (lit('+') > expression_  [_val = _1])
 					|   (lit("sin") > '(' > expression_ [_val = sin_lazy(_1)] > ')' )
 					|   (lit("cos") > '(' > expression_ [_val = cos_lazy(_1)] > ')' )
 					|   (lit("tan") > '(' > expression_ [_val = tan_lazy(_1)] > ')' )
@@ -232,10 +246,16 @@ namespace bertini {
 					
 					
 					
+					// a number with no sign, for - is an operator, of lower precedence than ^
 					number_.name("number_");
-					number_ =
+					number_ = !lit('-') >> signed_number_ [_val = _1];
+					
+					signed_number_.name("signed_number_");
+					signed_number_ =
 					mpfr_rules_.long_number_string_ [ _val = make_shared_<Float>()(_1) ]
 					|
+					mpfr_rules_.exponential_integer_string_ [ _val = make_shared_<Float>()(_1) ]
+					|
 					mpfr_rules_.integer_string_ [ _val = make_shared_<Integer>()(_1) ];
 					
 					
@@ -286,7 +306,7 @@ namespace bertini {
 				qi::rule<Iterator, std::shared_ptr<Node>(), ascii::space_type > root_rule_;
 				// the rule for kicking the entire thing off
 				
-				qi::rule<Iterator, std::shared_ptr<Node>(), ascii::space_type> expression_, term_, factor_, exp_elem_;
+				qi::rule<Iterator, std::shared_ptr<Node>(), ascii::space_type> expression_, term_, factor_, power_, exponent_, exp_elem_;
 				// rules for how to turn +-*/^ into operator nodes.
 				
 				
@@ -297,7 +317,7 @@ namespace bertini {
 				qi::rule<Iterator, std::shared_ptr<Node>(),  ascii::space_type > variable_;  // finds a previously encountered number, and associates the correct variable node with it.
 				
 				// the number_ rule wants to find strings from the various other number_ rules, and produces a Number node
-				qi::rule<Iterator, std::shared_ptr<Node>(),  ascii::space_type > number_;
+				qi::rule<Iterator, std::shared_ptr<Node>(),  ascii::space_type > number_, signed_number_;
 				
 				parsing::rules::LongNum<Iterator> mpfr_rules_;
 			};
diff --git a/core/include/bertini2/io/parsing/number_rules.hpp b/core/include/bertini2/io/parsing/number_rules.hpp
index 8ced877..8f3b1f7 100644
--- a/core/include/bertini2/io/parsing/number_rules.hpp
+++ b/core/include/bertini2/io/parsing/number_rules.hpp
@@ -83,6 +83,14 @@ namespace bertini{
 				|
 				integer_string_;
 				
+				// an integer with an exponent, such as 2e3
+				exponential_integer_string_.name("exponential_integer_string_");
+				exponential_integer_string_ = eps[_val = std::string()] >>
+				-(qi::lit('-'))[_val += "-"] >>
+				number_with_no_point_ [_val += _1]
+				>> exponent_notation_ [_val += _1];
+				
+				
 				integer_string_.name("integer_string_");
 				integer_string_ = eps[_val = std::string()] >>
 				-(qi::lit('-'))[_val += "-"] >>
@@ -132,9 +140,7 @@ namespace bertini{
 				number_with_no_point_.name("number_with_no_point_");
 				number_with_no_point_ = eps[_val = std::string()]
 				>>
-				(-(qi::lit('-')[_val += "-"]) // then an optional minus sign
-				>>
-				+(qi::char_(L'0',L'9'))[_val += _1])
+				+(qi::char_(L'0',L'9'))[_val += _1]
 				;
 				
 				
@@ -149,7 +155,7 @@ namespace bertini{
 					 qi::lit('E')[_val += "e"] // get an opening 'e'
 					 )
 					>>
-					-(qi::lit('-')[_val += "-"]) // then an optional minus sign
+					-(qi::lit('-')[_val += "-"] | qi::lit('+')) // then an optional sign
 					>>
 					+(qi::char_(L'0',L'9')[_val += _1]) // then at least one number
 					); // finish the rule off
@@ -165,7 +171,7 @@ namespace bertini{
 			
 			
 			// these rules all produce strings which are fed into numbers.
-			qi::rule<Iterator, std::string()> number_string_, integer_string_, long_number_string_, number_with_digits_before_point_,
+			qi::rule<Iterator, std::string()> number_string_, integer_string_, exponential_integer_string_, long_number_string_, number_with_digits_before_point_,
 			number_with_digits_after_point_, number_with_no_point_, exponent_notation_, rational;
 			
 
-- 
2.43.0


From a6dfcdcfefff231ff01ff8056557d6c6e74ad04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:02 +0000
Subject: [PATCH 46/76] fix: names and keywords in input files are whole words

---
 .../bertini2/io/parsing/system_rules.hpp      | 28 +++++++++++--------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/core/include/bertini2/io/parsing/system_rules.hpp b/core/include/bertini2/io/parsing/system_rules.hpp
index d8083ed..7ae8b26 100644
--- a/core/include/bertini2/io/parsing/system_rules.hpp
+++ b/core/include/bertini2/io/parsing/system_rules.hpp
@@ -169,15 +169,17 @@ namespace bertini {
 					variables_.name("variables_"); hom_variable_group_.name("hom_variable_group_"); variable_group_.name("variable_group_"); implicit_parameters_.name("implicit_parameters_");
 					
 					
-					variables_			= "variable" > genericvargp_ > ';';
-					hom_variable_group_ = "hom_variable_group" > genericvargp_ > ';';
-					variable_group_		= "variable_group" > genericvargp_ > ';';
-					implicit_parameters_ = "implicit_parameter" > genericvargp_ > ';';
+					// a keyword ends where no further character of a name follows
+					auto keyword = [this](char const* word) { return boost::proto::deep_copy(boost::spirit::lexeme[qi::lit(std::string(word)) >> !name_character_]); };
+					variables_			= keyword("variable") > genericvargp_ > ';';
+					hom_variable_group_ = keyword("hom_variable_group") > genericvargp_ > ';';
+					variable_group_		= keyword("variable_group") > genericvargp_ > ';';
+					implicit_parameters_ = keyword("implicit_parameter") > genericvargp_ > ';';
 					
 					
 					
 					path_variable_.name("path_variable_");
-					path_variable_ = "pathvariable" > new_variable_ > ';';
+					path_variable_ = keyword("pathvariable") > new_variable_ > ';';
 					
 					
 					
@@ -194,9 +196,9 @@ namespace bertini {
 					
 					functions_.name("functions_"); constants_.name("constants_"); parameters_.name("parameters_");
 					
-					functions_ = "function" > genericfuncgp_ > ';';
-					constants_ = "constant" > genericfuncgp_ > ';';
-					parameters_ = "parameter" > genericfuncgp_ > ';';
+					functions_ = keyword("function") > genericfuncgp_ > ';';
+					constants_ = keyword("constant") > genericfuncgp_ > ';';
+					parameters_ = keyword("parameter") > genericfuncgp_ > ';';
 					
 					
 					genericfuncgp_.name("genericfuncgp_");
@@ -214,7 +216,7 @@ namespace bertini {
 					
 					// this rule gets a string.
 					unencountered_symbol_.name("unencountered_symbol_");
-					unencountered_symbol_ = valid_variable_name_ - lexeme[( declarative_symbols_ | encountered_symbols_ )];
+					unencountered_symbol_ = valid_variable_name_ - lexeme[( declarative_symbols_ >> !name_character_ ) | ( encountered_symbols_ >> !name_character_ )];
 					// i am unsure about the use of lexeme in the above rule (unencountered_symbol).
 					
 					
@@ -222,13 +224,16 @@ namespace bertini {
 					
 					// get a string which fits the naming rules.
 					valid_variable_name_.name("valid_variable_name_");
-					valid_variable_name_ = +qi::alpha >> *(qi::alnum | qi::char_("[]_") );
+					valid_variable_name_ = +qi::alpha >> *name_character_;
+					
+					name_character_.name("name_character_");
+					name_character_ = qi::alnum | qi::char_("[]_");
 					
 					
 					
 					
 					definition_.name("definition_");
-					definition_ = (encountered_functions_ > '=' > function_parser_ > ';') [phx::bind( [](const Fn & F, const Nd & N)
+					definition_ = (lexeme[encountered_functions_ >> !name_character_] > '=' > function_parser_ > ';') [phx::bind( [](const Fn & F, const Nd & N)
 																									 {
 																										 F->SetRoot(N);
 																									 },_1, _2)] ;
@@ -330,6 +335,7 @@ namespace bertini {
 				
 				// the rule which determines valid variable names
 				qi::rule<Iterator, std::string()> valid_variable_name_;
+				qi::rule<Iterator, char()> name_character_; // what names can have after their first letter
 				
 				qi::rule<Iterator, Skipper, qi::unused_type> definition_;
 				
-- 
2.43.0


From 634d63d4600ba900122112063898f3b7c810a67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:02 +0000
Subject: [PATCH 47/76] fix: comments are stripped when splitting files, and
 markers are whole words

---
 .../bertini2/io/parsing/classic_utilities.hpp | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/core/include/bertini2/io/parsing/classic_utilities.hpp b/core/include/bertini2/io/parsing/classic_utilities.hpp
index 132bba0..ceba6ce 100644
--- a/core/include/bertini2/io/parsing/classic_utilities.hpp
+++ b/core/include/bertini2/io/parsing/classic_utilities.hpp
@@ -186,6 +186,7 @@ namespace bertini {
 					using qi::lit;
 					using qi::char_;
 					using qi::omit;
+					using qi::raw;
 					using boost::spirit::lexeme;
 					using boost::spirit::as_string;
 					using boost::spirit::ascii::no_case;
@@ -253,14 +254,20 @@ namespace bertini {
 					[phx::bind(&SplitInputFile::SetReadable, _val, false)];
 					
 					config_.name("config_");
-					config_ = no_case[*(char_ - "CONFIG") >> "CONFIG"];
+					config_ = lexeme[*( !config_mark_ >> piece_ ) >> config_mark_];
 					
 					end_.name("end_");
-					end_ = no_case[lexeme[*(char_ - "END;")] >> "END;"];
+					end_ = lexeme[raw[*( !end_mark_ >> piece_ )] >> end_mark_];
 					
 					input_.name("input_");
-					input_ = no_case[lexeme[*(char_ - "INPUT")] >> "INPUT"];
+					input_ = lexeme[raw[*( !input_mark_ >> piece_ )] >> input_mark_];
 					
+					// markers are whole words, not parts of names such as `input_1` or `trend`
+					config_mark_ = no_case["CONFIG"] >> !name_character_;
+					input_mark_ = no_case["INPUT"] >> !name_character_;
+					end_mark_ = no_case["END;"];
+					name_character_ = qi::alnum | char_("[]_");
+					piece_ = +name_character_ | char_;
 					
 					
 					no_decl_.name("no_decl_");
@@ -299,6 +306,7 @@ namespace bertini {
 				qi::rule<Iterator, SplitInputFile(), ascii::space_type > root_rule_, both_, only_input_, unreadable_;
 				qi::rule<Iterator, ascii::space_type, std::string()> end_, input_, no_decl_;
 				qi::rule<Iterator, ascii::space_type> config_;
+				qi::rule<Iterator> config_mark_, input_mark_, end_mark_, name_character_, piece_; // none of these skips
 			};
 			
 			
@@ -403,13 +411,7 @@ namespace bertini {
 			 */
 			std::tuple<std::string, std::string> SplitIntoConfigAndInput(Path const& input_file)
 			{
-				auto file_as_string = FileToString(input_file);
-				
-				SplitInputFileParser<std::string::const_iterator> parser;
-				SplitInputFile config_and_input;
-				std::string::const_iterator iter = file_as_string.begin();
-				std::string::const_iterator end = file_as_string.end();
-				phrase_parse(iter, end, parser, boost::spirit::ascii::space, config_and_input);
+				auto config_and_input = ParseInputFile(FileToString(input_file));
 
 				return std::make_tuple(config_and_input.Config(), config_and_input.Input());
 			}
-- 
2.43.0


From 5dfe4368cf2a96f317ad5bee9c869b6003a4860a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:50 +0000
Subject: [PATCH 48/76] fix: integers with leading zeros in text are decimal

---
 core/include/bertini2/io/parsing/number_rules.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/include/bertini2/io/parsing/number_rules.hpp b/core/include/bertini2/io/parsing/number_rules.hpp
index 8f3b1f7..5a8c7dd 100644
--- a/core/include/bertini2/io/parsing/number_rules.hpp
+++ b/core/include/bertini2/io/parsing/number_rules.hpp
@@ -140,6 +140,8 @@ namespace bertini{
 				number_with_no_point_.name("number_with_no_point_");
 				number_with_no_point_ = eps[_val = std::string()]
 				>>
+				omit[*(qi::char_('0') >> &qi::char_('0','9'))] // leading zeros do not mean octal
+				>>
 				+(qi::char_(L'0',L'9'))[_val += _1]
 				;
 				
-- 
2.43.0


From a75f37c183828f18c4aaa19510db816663543d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:35 +0000
Subject: [PATCH 49/76] fix: functions keep the name they are made with

---
 core/src/function_tree/roots/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/function_tree/roots/function.cpp b/core/src/function_tree/roots/function.cpp
index 69aa42a..f1dadfb 100644
--- a/core/src/function_tree/roots/function.cpp
+++ b/core/src/function_tree/roots/function.cpp
@@ -211,11 +211,11 @@ void Handle::precision(unsigned int prec) const
 
 
 
-Function::Function(std::string const& new_name) : Handle(new_name)
+Function::Function(std::string const& new_name) : NamedSymbol(new_name), Handle(new_name) // virtual bases are initialized here
 { }
 
 
-Function::Function(const std::shared_ptr<Node> & entry, std::string const& name) : Handle(entry, name)
+Function::Function(const std::shared_ptr<Node> & entry, std::string const& name) : NamedSymbol(name), Handle(entry, name)
 {
 }
 
-- 
2.43.0


From c9fdbca6fb67f963a2555d572f9156324b6d49d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:57 +0000
Subject: [PATCH 50/76] fix: the input part of a file without END; is not
 repeated

---
 core/include/bertini2/io/parsing/classic_utilities.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/include/bertini2/io/parsing/classic_utilities.hpp b/core/include/bertini2/io/parsing/classic_utilities.hpp
index ceba6ce..14f7fb5 100644
--- a/core/include/bertini2/io/parsing/classic_utilities.hpp
+++ b/core/include/bertini2/io/parsing/classic_utilities.hpp
@@ -187,6 +187,7 @@ namespace bertini {
 					using qi::char_;
 					using qi::omit;
 					using qi::raw;
+					using qi::hold;
 					using boost::spirit::lexeme;
 					using boost::spirit::as_string;
 					using boost::spirit::ascii::no_case;
@@ -257,10 +258,10 @@ namespace bertini {
 					config_ = lexeme[*( !config_mark_ >> piece_ ) >> config_mark_];
 					
 					end_.name("end_");
-					end_ = lexeme[raw[*( !end_mark_ >> piece_ )] >> end_mark_];
+					end_ = hold[lexeme[raw[*( !end_mark_ >> piece_ )] >> end_mark_]]; // no text is kept if there is no marker
 					
 					input_.name("input_");
-					input_ = lexeme[raw[*( !input_mark_ >> piece_ )] >> input_mark_];
+					input_ = hold[lexeme[raw[*( !input_mark_ >> piece_ )] >> input_mark_]];
 					
 					// markers are whole words, not parts of names such as `input_1` or `trend`
 					config_mark_ = no_case["CONFIG"] >> !name_character_;
-- 
2.43.0


From c125e84069a82b3887c187f899a17baa1d8b008c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:05 +0000
Subject: [PATCH 51/76] fix: doubles are written and read without losing digits

The text written for a double did not always denote that double, and text was not always read
as the nearest double, so numbers did not survive a round trip.
---
 core/include/bertini2/io/generators.hpp       | 57 +++++++------------
 .../bertini2/io/parsing/number_parsers.hpp    | 35 ++++++++++--
 2 files changed, 53 insertions(+), 39 deletions(-)

diff --git a/core/include/bertini2/io/generators.hpp b/core/include/bertini2/io/generators.hpp
index 36c2c09..7ed0776 100644
--- a/core/include/bertini2/io/generators.hpp
+++ b/core/include/bertini2/io/generators.hpp
@@ -34,6 +34,10 @@
 #include "bertini2/mpfr_complex.hpp"
 #include "bertini2/eigen_extensions.hpp"
 
+#include <cstdio>
+#include <limits>
+#include <string>
+
 #include <boost/math/special_functions/modf.hpp> 
 
 BOOST_MATH_STD_USING
@@ -75,35 +79,16 @@ namespace bertini{
 
 		namespace karma = boost::spirit::karma;
 
-		template <typename Num>
-		struct BertiniNumPolicy : public karma::real_policies<Num>
+		/**
+		\brief Text for a double, in scientific format, with enough digits that reading it gives the same number.
+		*/
+		inline
+		std::string FullPrecision(double c)
 		{
-		    // we want the numbers always to be in scientific format
-		    static int floatfield(Num n) { return std::ios_base::scientific; }
-
-		    static unsigned int precision(Num) {
-		        return std::numeric_limits<Num>::max_digits10;
-		      }
-		};
-
-		template<>
-		struct BertiniNumPolicy<mpfr_float>  : public karma::real_policies<mpfr_float>
-		{
-		    // we want the numbers always to be in scientific format
-		    static int floatfield(mpfr_float n) { return std::ios_base::scientific; }
-
-		    static unsigned int precision(mpfr_float const& x) {
-		        return x.precision();
-		      }
-		};
-
-
-
-		template<typename Num>
-		using FullPrec = boost::spirit::karma::real_generator<Num, BertiniNumPolicy<Num> >;
-
-		FullPrec<double> const full_prec_d = FullPrec<double>();
-		FullPrec<mpfr_float> const full_prec_mp = FullPrec<mpfr_float>();
+			char text[32]; // a sign, 17 digits, a point, an e, and a signed three-digit exponent
+			std::snprintf(text, sizeof(text), "%.*e", std::numeric_limits<double>::max_digits10 - 1, c);
+			return text;
+		}
 
 
 		struct Classic{
@@ -118,11 +103,11 @@ namespace bertini{
 
 	                //  Begin grammar
 	                (
-	                   full_prec_d << " " << full_prec_d
+	                   boost::spirit::karma::string << " " << boost::spirit::karma::string
 	                ),
 	                //  End grammar
 
-	                c, 0     //  Data to output
+	                FullPrecision(c), FullPrecision(0)     //  Data to output
 	                );
 			}
 
@@ -137,11 +122,11 @@ namespace bertini{
 
 	                //  Begin grammar
 	                (
-	                   full_prec_d << " " << full_prec_d
+	                   boost::spirit::karma::string << " " << boost::spirit::karma::string
 	                ),
 	                //  End grammar
 
-	                c.real(), c.imag()     //  Data to output
+	                FullPrecision(c.real()), FullPrecision(c.imag())     //  Data to output
 	                );
 			}
 
@@ -211,16 +196,18 @@ namespace bertini{
 	            using boost::spirit::karma::omit;
 	            using boost::spirit::karma::generate;
 
+	            if (c.imag()==0)
+	            	return generate(sink, boost::spirit::karma::string, FullPrecision(c.real()));
+
 	            return generate(sink,
 
 	                //  Begin grammar
 	                (
-	                   !full_prec_d(0.0) << '(' << full_prec_d << ", " << full_prec_d << ')'
-	                |   omit[full_prec_d] << full_prec_d
+	                   '(' << boost::spirit::karma::string << ", " << boost::spirit::karma::string << ')'
 	                ),
 	                //  End grammar
 
-	                c.imag(), c.real(), c.imag()     //  Data to output
+	                FullPrecision(c.real()), FullPrecision(c.imag())     //  Data to output
 	                );
 			}
 		};
diff --git a/core/include/bertini2/io/parsing/number_parsers.hpp b/core/include/bertini2/io/parsing/number_parsers.hpp
index 277a527..b9a77d0 100644
--- a/core/include/bertini2/io/parsing/number_parsers.hpp
+++ b/core/include/bertini2/io/parsing/number_parsers.hpp
@@ -28,6 +28,8 @@
 
 #pragma once
 
+#include <cstdlib>
+
 #include "bertini2/io/parsing/number_rules.hpp"
 
 
@@ -35,6 +37,31 @@
 namespace bertini{
 	namespace parsing{
 
+		/**
+		\brief Parses a double, as the double nearest to what the text says.
+		
+		The real number parsers in Spirit find where a number is in the text, but do not round correctly.
+		*/
+		template<typename Iterator>
+		struct DoubleParser : qi::grammar<Iterator, double()>
+		{
+			DoubleParser() : DoubleParser::base_type(root_rule_,"DoubleParser")
+			{
+				root_rule_ = qi::raw[qi::double_]
+								[ boost::phoenix::bind(
+										[]
+										(double & d, boost::iterator_range<Iterator> const& text)
+										{
+											d = std::strtod(std::string(text.begin(), text.end()).c_str(), nullptr);
+										},
+										qi::_val, qi::_1
+									)
+								];
+			}
+
+			qi::rule<Iterator, double()> root_rule_;
+		};
+
 		namespace classic{
 			template<typename Iterator, typename Skipper = ascii::space_type>
 			struct MpfrFloatParser : qi::grammar<Iterator, mpfr_float(), boost::spirit::ascii::space_type>
@@ -123,7 +150,7 @@ namespace bertini{
 			template <typename Iterator>
 			static bool parse(Iterator first, Iterator last, double& c)
 			{
-				using boost::spirit::qi::double_;
+				DoubleParser<Iterator> double_;
 				using boost::spirit::qi::_1;
 				using boost::spirit::qi::phrase_parse;
 				using boost::spirit::ascii::space;
@@ -146,7 +173,7 @@ namespace bertini{
 			template <typename Iterator>
 			static bool parse(Iterator first, Iterator last, std::complex<double>& c)
 			{
-				using boost::spirit::qi::double_;
+				DoubleParser<Iterator> double_;
 				using boost::spirit::qi::_1;
 				using boost::spirit::qi::phrase_parse;
 				using boost::spirit::ascii::space;
@@ -234,7 +261,7 @@ namespace bertini{
 			template <typename Iterator>
 			static bool parse(Iterator first, Iterator last, double& c)
 			{
-				using boost::spirit::qi::double_;
+				DoubleParser<Iterator> double_;
 				using boost::spirit::qi::_1;
 				using boost::spirit::qi::phrase_parse;
 				using boost::spirit::ascii::space;
@@ -258,7 +285,7 @@ namespace bertini{
 			template <typename Iterator>
 			static bool parse(Iterator first, Iterator last, std::complex<double>& c)
 			{
-				using boost::spirit::qi::double_;
+				DoubleParser<Iterator> double_;
 				using boost::spirit::qi::_1;
 				using boost::spirit::qi::phrase_parse;
 				using boost::spirit::ascii::space;
-- 
2.43.0


From 6bfc9d8f2752e2d3ea8def790b5e0d71e8df3758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:49 +0000
Subject: [PATCH 52/76] fix: names of settings are whole words

FinalTol was found in SliceFinalTol, and the like; the text before PathVarName became part of the
name; an unreadable MPType was ignored.
---
 .../io/parsing/settings_parsers/algorithm.hpp | 66 +++++++++----------
 .../io/parsing/settings_parsers/base.hpp      |  8 +++
 .../io/parsing/settings_parsers/endgames.hpp  | 32 ++++-----
 .../io/parsing/settings_parsers/tracking.hpp  | 46 ++++++-------
 4 files changed, 80 insertions(+), 72 deletions(-)

diff --git a/core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp b/core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp
index 35a666f..633d214 100644
--- a/core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp
+++ b/core/include/bertini2/io/parsing/settings_parsers/algorithm.hpp
@@ -97,35 +97,35 @@ namespace bertini {
 					| (no_case[path_trunc_name] >> ':');
 					
 					newton_before_endgame_.name("newton_before_endgame_");
-					newton_before_endgame_ = *(char_ - all_names_) >> (no_case[newton_before_name] >> ':')
+					newton_before_endgame_ = *(word_ - all_names_) >> (no_case[newton_before_name] >> ':')
 					>> mpfr_rules.number_string_[phx::bind( [this](T & num, std::string str)
 														   {
 															   num = bertini::NumTraits<T>::FromString(str);
 														   }, _val, _1 )] >> ';';
 					
 					newton_during_endgame_.name("newton_during_endgame_");
-					newton_during_endgame_ = *(char_ - all_names_) >> (no_case[newton_during_name] >>':')
+					newton_during_endgame_ = *(word_ - all_names_) >> (no_case[newton_during_name] >>':')
 					>> mpfr_rules.number_string_[phx::bind( [this](T & num, std::string str)
 														   {
 															   num = bertini::NumTraits<T>::FromString(str);
 														   }, _val, _1 )] >> ';';
 					
 					final_tol_.name("final_tol_");
-					final_tol_ = *(char_ - all_names_) >> (no_case[final_tol_name] >> ':')
+					final_tol_ = *(word_ - all_names_) >> (no_case[final_tol_name] >> ':')
 					>> mpfr_rules.number_string_[phx::bind( [this](T & num, std::string str)
 														   {
 															   num = bertini::NumTraits<T>::FromString(str);
 														   }, _val, _1 )] >> ';';
 					
 					path_trunc_threshold_.name("path_trunc_threshold_");
-					path_trunc_threshold_ = *(char_ - all_names_) >> (no_case[path_trunc_name] >> ':')
+					path_trunc_threshold_ = *(word_ - all_names_) >> (no_case[path_trunc_name] >> ':')
 					>> mpfr_rules.number_string_[phx::bind( [this](T & num, std::string str)
 														   {
 															   num = bertini::NumTraits<T>::FromString(str);
 														   }, _val, _1 )] >> ';';
 					
 					no_setting_.name("no_setting_");
-					no_setting_ = *(char_ - all_names_);
+					no_setting_ = *(word_ - all_names_);
 					
 					no_decl_.name("no_decl_");
 					no_decl_ = *(char_);
@@ -251,30 +251,30 @@ namespace bertini {
 
 
 					path_variable_name_.name("path_variable_name_");
-					path_variable_name_ = *(char_ - all_names_) >> (no_case[path_variable_name_name] >> ':') >> valid_variable_name_ >> ';';
+					path_variable_name_ = *(word_ - all_names_) >> (no_case[path_variable_name_name] >> ':') >> valid_variable_name_ >> ';';
 
 					init_prec_.name("init_prec_");
-					init_prec_ = *(char_ - all_names_) >> (no_case[init_prec_name] >> ':') >> qi::int_[_val=_1] >> ';';
+					init_prec_ = *(word_ - all_names_) >> (no_case[init_prec_name] >> ':') >> qi::int_[_val=_1] >> ';';
 
 					max_cross_resolve_.name("max_cross_resolve_");
-					max_cross_resolve_ = *(char_ - all_names_) >> (no_case[max_cross_resolve_name] >> ':') >> qi::int_[_val=_1] >> ';';
+					max_cross_resolve_ = *(word_ - all_names_) >> (no_case[max_cross_resolve_name] >> ':') >> qi::int_[_val=_1] >> ';';
 
 					start_time_.name("start_time_");
-					start_time_ = *(char_ - all_names_) >> (no_case[start_time_name] >> ':')
+					start_time_ = *(word_ - all_names_) >> (no_case[start_time_name] >> ':')
 					>> mpfr_rules.number_string_[phx::bind( str_to_ComplexT, _val, _1 )] >> ';';
 
 					endgame_boundary_.name("endgame_boundary_");
-					endgame_boundary_ = *(char_ - all_names_) >> (no_case[endgame_boundary_name] >> ':')
+					endgame_boundary_ = *(word_ - all_names_) >> (no_case[endgame_boundary_name] >> ':')
 					>> mpfr_rules.number_string_[phx::bind( str_to_ComplexT, _val, _1 )] >> ';';
 
 					target_time_.name("target_time_");
-					target_time_ = *(char_ - all_names_) >> (no_case[target_time_name] >> ':')
+					target_time_ = *(word_ - all_names_) >> (no_case[target_time_name] >> ':')
 					>> mpfr_rules.number_string_[phx::bind( str_to_ComplexT, _val, _1 )] >> ';';
 
 
 
 					no_setting_.name("no_setting_");
-					no_setting_ = *(char_ - all_names_);
+					no_setting_ = *(word_ - all_names_);
 					
 					no_decl_.name("no_decl_");
 					no_decl_ = *(char_);
@@ -359,12 +359,12 @@ namespace bertini {
 
 
 					same_point_tol_.name("same_point_tol_");
-					same_point_tol_ = *(char_ - all_names_) >> (no_case[same_point_tol_name] >> ':')
+					same_point_tol_ = *(word_ - all_names_) >> (no_case[same_point_tol_name] >> ':')
 					>> mpfr_rules.number_string_[phx::bind( str_to_T, _val, _1 )] >> ';';
 					
 					
 					no_setting_.name("no_setting_");
-					no_setting_ = *(char_ - all_names_);
+					no_setting_ = *(word_ - all_names_);
 					
 					no_decl_.name("no_decl_");
 					no_decl_ = *(char_);
@@ -443,12 +443,12 @@ namespace bertini {
 
 
 					decrease_factor.name("decrease_factor");
-					decrease_factor = *(char_ - all_names_) >> (no_case[decrease_factor_name] >> ':')
+					decrease_factor = *(word_ - all_names_) >> (no_case[decrease_factor_name] >> ':')
 					>> mpfr_rules.number_string_[phx::bind( str_to_T, _val, _1 )] >> ';';
 					
 					
 					no_setting_.name("no_setting_");
-					no_setting_ = *(char_ - all_names_);
+					no_setting_ = *(word_ - all_names_);
 					
 					no_decl_.name("no_decl_");
 					no_decl_ = *(char_);
@@ -541,20 +541,20 @@ namespace bertini {
 
 
 					func_res_tol_.name("func_res_tol_");
-					func_res_tol_ = *(char_ - all_names_) >> (no_case[func_res_tol_name] >> ':')
+					func_res_tol_ = *(word_ - all_names_) >> (no_case[func_res_tol_name] >> ':')
 					>> mpfr_rules.number_string_[phx::bind( str_to_T, _val, _1 )] >> ';';
 					
 					ratio_tol_.name("ratio_tol_");
-					ratio_tol_ = *(char_ - all_names_) >> (no_case[ratio_tol_name] >> ':')
+					ratio_tol_ = *(word_ - all_names_) >> (no_case[ratio_tol_name] >> ':')
 					>> mpfr_rules.number_string_[phx::bind( str_to_T, _val, _1 )] >> ';';
 
 					sharpen_digits_.name("sharpen_digits_");
-					sharpen_digits_ = *(char_ - all_names_) >> (no_case[sharpen_digits_name] >> ':') >> qi::uint_[_val=_1] >> ';';
+					sharpen_digits_ = *(word_ - all_names_) >> (no_case[sharpen_digits_name] >> ':') >> qi::uint_[_val=_1] >> ';';
 
 
 
 					no_setting_.name("no_setting_");
-					no_setting_ = *(char_ - all_names_);
+					no_setting_ = *(word_ - all_names_);
 					
 					no_decl_.name("no_decl_");
 					no_decl_ = *(char_);
@@ -669,32 +669,32 @@ namespace bertini {
 
 
 					higher_dim_check_.name("higher_dim_check_");
-					higher_dim_check_ = *(char_ - all_names_) >> (no_case[higher_dim_check_name] >> ':') >> qi::int_[_val=_1] >> ';';
+					higher_dim_check_ = *(word_ - all_names_) >> (no_case[higher_dim_check_name] >> ':') >> qi::int_[_val=_1] >> ';';
 
 					start_level_.name("start_level_");
-					start_level_ = *(char_ - all_names_) >> (no_case[start_level_name] >> ':') >> qi::int_[_val=_1] >> ';';
+					start_level_ = *(word_ - all_names_) >> (no_case[start_level_name] >> ':') >> qi::int_[_val=_1] >> ';';
 
 					regen_remove_inf_.name("regen_remove_inf_");
-					regen_remove_inf_ = *(char_ - all_names_) >> (no_case[regen_remove_inf_name] >> ':') >> qi::int_[_val=_1] >> ';';
+					regen_remove_inf_ = *(word_ - all_names_) >> (no_case[regen_remove_inf_name] >> ':') >> qi::int_[_val=_1] >> ';';
 
 
 
 					slice_before_.name("slice_before_");
-					slice_before_ = *(char_ - all_names_) >> (no_case[slice_before_name] >> ':')
+					slice_before_ = *(word_ - all_names_) >> (no_case[slice_before_name] >> ':')
 					>> mpfr_rules.number_string_[phx::bind( str_to_T, _val, _1 )] >> ';';
 
 					slice_during_.name("slice_during_");
-					slice_during_ = *(char_ - all_names_) >> (no_case[slice_during_name] >> ':')
+					slice_during_ = *(word_ - all_names_) >> (no_case[slice_during_name] >> ':')
 					>> mpfr_rules.number_string_[phx::bind( str_to_T, _val, _1 )] >> ';';
 
 					slice_final_.name("slice_final_");
-					slice_final_ = *(char_ - all_names_) >> (no_case[slice_final_name] >> ':')
+					slice_final_ = *(word_ - all_names_) >> (no_case[slice_final_name] >> ':')
 					>> mpfr_rules.number_string_[phx::bind( str_to_T, _val, _1 )] >> ';';
 
 
 
 					no_setting_.name("no_setting_");
-					no_setting_ = *(char_ - all_names_);
+					no_setting_ = *(word_ - all_names_);
 					
 					no_decl_.name("no_decl_");
 					no_decl_ = *(char_);
@@ -792,21 +792,21 @@ namespace bertini {
 									   };
 
 					real_threshold_.name("real_thresh_");
-					real_threshold_ = *(char_ - all_names_) >> (no_case[real_thresh_name] >> ':')
+					real_threshold_ = *(word_ - all_names_) >> (no_case[real_thresh_name] >> ':')
 					>> mpfr_rules.number_string_[phx::bind( str_to_T, _val, _1 )] >> ';';
 
 					endpoint_finite_.name("endpoint_finite_");
-					endpoint_finite_ = *(char_ - all_names_) >> (no_case[endpoint_finite_name] >> ':')
+					endpoint_finite_ = *(word_ - all_names_) >> (no_case[endpoint_finite_name] >> ':')
 					>> mpfr_rules.number_string_[phx::bind( str_to_T, _val, _1 )] >> ';';
 
 					same_point_.name("same_point_");
-					same_point_ = *(char_ - all_names_) >> (no_case[same_point_name] >> ':')
+					same_point_ = *(word_ - all_names_) >> (no_case[same_point_name] >> ':')
 					>> mpfr_rules.number_string_[phx::bind( str_to_T, _val, _1 )] >> ';';
 
 
 
 					no_setting_.name("no_setting_");
-					no_setting_ = *(char_ - all_names_);
+					no_setting_ = *(word_ - all_names_);
 					
 					no_decl_.name("no_decl_");
 					no_decl_ = *(char_);
@@ -888,10 +888,10 @@ namespace bertini {
 								| no_setting_[_val = algorithm::classic::AlgoChoice::ZeroDim];
 					
 					config_name_.name("tracktype_");
-					config_name_ = *(char_ - (no_case[setting_name] >> ':')) >> (no_case[setting_name] >> ':') >> tracktype_[_val = _1] >> ';';
+					config_name_ = *(word_ - (no_case[setting_name] >> ':')) >> (no_case[setting_name] >> ':') >> tracktype_[_val = _1] >> ';';
 					
 					no_setting_.name("no_setting_");
-					no_setting_ = *(char_ - no_case[setting_name]);
+					no_setting_ = *(word_ - (no_case[setting_name] >> ':'));
 					
 					no_decl_.name("no_decl_");
 					no_decl_ = *(char_);
diff --git a/core/include/bertini2/io/parsing/settings_parsers/base.hpp b/core/include/bertini2/io/parsing/settings_parsers/base.hpp
index bf91bc2..7bef71a 100644
--- a/core/include/bertini2/io/parsing/settings_parsers/base.hpp
+++ b/core/include/bertini2/io/parsing/settings_parsers/base.hpp
@@ -42,6 +42,14 @@ namespace bertini {
 			namespace ascii = ::boost::spirit::ascii;
 			
 			
+			/**
+			 What settings parsers pass over on the way to a setting: a whole word, or any other character.  
+			 
+			 Going word by word, the name of a setting isn't found in the end of a longer name -- the FinalTol in SliceFinalTol, say.
+			 */
+			static const auto word_ = boost::proto::deep_copy(qi::omit[qi::lexeme[+(qi::alnum | qi::char_('_'))] | qi::char_]);
+
+
 			/**
 			 Qi Parser object for parsing config settings  This ensures we can provide backwards compatibility with Bertini Classic input files.
 			 
diff --git a/core/include/bertini2/io/parsing/settings_parsers/endgames.hpp b/core/include/bertini2/io/parsing/settings_parsers/endgames.hpp
index 7375db8..ebf9c72 100644
--- a/core/include/bertini2/io/parsing/settings_parsers/endgames.hpp
+++ b/core/include/bertini2/io/parsing/settings_parsers/endgames.hpp
@@ -85,17 +85,17 @@ namespace bertini {
 					all_names_ = (no_case[level_name] >> ':') | (no_case[maxnorm_name] >> ':');
 					
 					security_level_.name("security_level_");
-					security_level_ = *(char_ - all_names_) >> (no_case[level_name] >> ':') >> qi::int_[_val = _1] >> ';';
+					security_level_ = *(word_ - all_names_) >> (no_case[level_name] >> ':') >> qi::int_[_val = _1] >> ';';
 					
 					security_max_norm_.name("security_max_norm_");
-					security_max_norm_ = *(char_ - all_names_) >> (no_case[maxnorm_name] >> ':')
+					security_max_norm_ = *(word_ - all_names_) >> (no_case[maxnorm_name] >> ':')
 					>> mpfr_rules.number_string_[phx::bind( [this](T & num, std::string str)
 														   {
 															   num = bertini::NumTraits<T>::FromString(str);
 														   }, _val, _1 )] >> ';';
 					
 					no_setting_.name("no_setting_");
-					no_setting_ = *(char_ - all_names_);
+					no_setting_ = *(word_ - all_names_);
 					
 					no_decl_.name("no_decl_");
 					no_decl_ = *(char_);
@@ -190,25 +190,25 @@ namespace bertini {
 					all_names_ = (no_case[samplefactor_name] >> ':') | (no_case[numpoints_name] >> ':')| (no_case[mintrack_name] >> ':');
 					
 					sample_factor_.name("sample_factor_");
-					sample_factor_ = *(char_ - all_names_) >> (no_case[samplefactor_name] >> ':')
+					sample_factor_ = *(word_ - all_names_) >> (no_case[samplefactor_name] >> ':')
 					>> mpfr_rules.rational[phx::bind( [this](R & num, std::string str)
 														   {
 															   num = bertini::NumTraits<double>::FromString(str);
 														   }, _val, _1 )] >> ';';
 					
 					min_track_.name("min_track_");
-					min_track_ = *(char_ - all_names_) >> (no_case[mintrack_name] >> ':')
+					min_track_ = *(word_ - all_names_) >> (no_case[mintrack_name] >> ':')
 					>> mpfr_rules.number_string_[phx::bind( [this](T & num, std::string str)
 														   {
 															   num = bertini::NumTraits<T>::FromString(str);
 														   }, _val, _1 )] >> ';';
 					
 					num_sample_.name("num_sample_");
-					num_sample_ = *(char_ - all_names_) >> (no_case[numpoints_name] >> ':')
+					num_sample_ = *(word_ - all_names_) >> (no_case[numpoints_name] >> ':')
 					>> qi::uint_[_val=_1] >> ';';
 					
 					no_setting_.name("no_setting_");
-					no_setting_ = *(char_ - all_names_);
+					no_setting_ = *(word_ - all_names_);
 					
 					no_decl_.name("no_decl_");
 					no_decl_ = *(char_);
@@ -292,10 +292,10 @@ namespace bertini {
 					all_names_ = eps >> (no_case[maxcycle_name] >> ':');
 					
 					max_cycle_.name("max_cycle_");
-					max_cycle_ = *(char_ - all_names_) >> (no_case[maxcycle_name] >> ':') >> qi::uint_[_val=_1] >> ';';
+					max_cycle_ = *(word_ - all_names_) >> (no_case[maxcycle_name] >> ':') >> qi::uint_[_val=_1] >> ';';
 					
 					no_setting_.name("no_setting_");
-					no_setting_ = *(char_ - all_names_);
+					no_setting_ = *(word_ - all_names_);
 					
 					no_decl_.name("no_decl_");
 					no_decl_ = *(char_);
@@ -377,21 +377,21 @@ namespace bertini {
 					all_names_ = (no_case[cyclecutoff_name] >> ':') | (no_case[ratiocutoff_name] >> ':');
 					
 					cycle_cutoff_.name("cycle_cutoff_");
-					cycle_cutoff_ = *(char_ - all_names_) >> (no_case[cyclecutoff_name] >> ':')
+					cycle_cutoff_ = *(word_ - all_names_) >> (no_case[cyclecutoff_name] >> ':')
 					>> mpfr_rules.number_string_[phx::bind( [this](T & num, std::string str)
 														   {
 															   num = bertini::NumTraits<T>::FromString(str);
 														   }, _val, _1 )] >> ';';
 					
 					ratio_cutoff_.name("ratio_cutoff_");
-					ratio_cutoff_ = *(char_ - all_names_) >> (no_case[ratiocutoff_name] >> ':')
+					ratio_cutoff_ = *(word_ - all_names_) >> (no_case[ratiocutoff_name] >> ':')
 					>> mpfr_rules.number_string_[phx::bind( [this](T & num, std::string str)
 														   {
 															   num = bertini::NumTraits<T>::FromString(str);
 														   }, _val, _1 )] >> ';';
 					
 					no_setting_.name("no_setting_");
-					no_setting_ = *(char_ - all_names_);
+					no_setting_ = *(word_ - all_names_);
 					
 					no_decl_.name("no_decl_");
 					no_decl_ = *(char_);
@@ -480,16 +480,16 @@ namespace bertini {
 										(no_case[maxdepth_name] >> ':');
 					
 					min_cycle_.name("min_cycle_");
-					min_cycle_ = *(char_ - all_names_) >> (no_case[min_cycle_name] >> ':') >> qi::uint_[_val=_1] >> ';';
+					min_cycle_ = *(word_ - all_names_) >> (no_case[min_cycle_name] >> ':') >> qi::uint_[_val=_1] >> ';';
 					
 					junk_removal_.name("junk_removal_");
-					junk_removal_ = *(char_ - all_names_) >> (no_case[junk_removal_name] >> ':') >> qi::int_[_val=_1] >> ';';
+					junk_removal_ = *(word_ - all_names_) >> (no_case[junk_removal_name] >> ':') >> qi::int_[_val=_1] >> ';';
 
 					max_depth_.name("max_depth_");
-					max_depth_ = *(char_ - all_names_) >> (no_case[maxdepth_name] >> ':') >> qi::uint_[_val=_1] >> ';';
+					max_depth_ = *(word_ - all_names_) >> (no_case[maxdepth_name] >> ':') >> qi::uint_[_val=_1] >> ';';
 
 					no_setting_.name("no_setting_");
-					no_setting_ = *(char_ - all_names_);
+					no_setting_ = *(word_ - all_names_);
 					
 					no_decl_.name("no_decl_");
 					no_decl_ = *(char_);
diff --git a/core/include/bertini2/io/parsing/settings_parsers/tracking.hpp b/core/include/bertini2/io/parsing/settings_parsers/tracking.hpp
index 2bc4373..cfd7386 100644
--- a/core/include/bertini2/io/parsing/settings_parsers/tracking.hpp
+++ b/core/include/bertini2/io/parsing/settings_parsers/tracking.hpp
@@ -96,10 +96,10 @@ namespace bertini {
 					root_rule_ = (config_name_[_val = _1] >> -no_setting_) | no_setting_[_val = PrecisionType::Adaptive];
 					
 					config_name_.name("precisiontype_");
-					config_name_ = *(char_ - (no_case["mptype"]>>':')) >> (no_case["mptype"] >> ':') >> precisiontype_[_val = _1] >> ';';
+					config_name_ = *(word_ - (no_case["mptype"]>>':')) >> (no_case["mptype"] >> ':') >> precisiontype_[_val = _1] >> ';';
 					
 					no_setting_.name("no_setting_");
-					no_setting_ = *(char_ - no_case["mptype:"]);
+					no_setting_ = *(word_ - (no_case["mptype"] >> ':'));
 					
 					no_decl_.name("no_decl_");
 					no_decl_ = *(char_);
@@ -184,10 +184,10 @@ namespace bertini {
 					root_rule_ = (config_name_[_val = _1] >> -no_setting_) | no_setting_[_val = Predictor::RKF45];
 					
 					config_name_.name("predictor_");
-					config_name_ = *(char_ - (no_case[setting_name] >> ':')) >> (no_case[setting_name] >> ':') >> predictor_[_val = _1] >> ';';
+					config_name_ = *(word_ - (no_case[setting_name] >> ':')) >> (no_case[setting_name] >> ':') >> predictor_[_val = _1] >> ';';
 					
 					no_setting_.name("no_setting_");
-					no_setting_ = *(char_ - no_case[setting_name]);
+					no_setting_ = *(word_ - (no_case[setting_name] >> ':'));
 					
 					no_decl_.name("no_decl_");
 					no_decl_ = *(char_);
@@ -309,34 +309,34 @@ namespace bertini {
 					(no_case[stepfail_name] >> ':')| (no_case[stepsincrease_name] >> ':') | (no_case[maxnumsteps_name] >> ':');
 					
 					max_step_size_.name("max_step_size_");
-					max_step_size_ = *(char_ - all_names_) >> (no_case[maxstep_name] >> ':')
+					max_step_size_ = *(word_ - all_names_) >> (no_case[maxstep_name] >> ':')
 					>> mpfr_rules.rational[phx::bind( [this](T & num, std::string const& str)
 														   {
 															   num = bertini::NumTraits<T>::FromString(str);
 														   }, _val, _1 )] >> ';';
 					
 					stepsize_success_.name("stepsize_success_");
-					stepsize_success_ = *(char_ - all_names_) >> (no_case[stepsuccess_name] >> ':')
+					stepsize_success_ = *(word_ - all_names_) >> (no_case[stepsuccess_name] >> ':')
 					>> mpfr_rules.rational[phx::bind( [this](R & num, std::string const& str)
 														   {
 															num = bertini::NumTraits<double>::FromString(str);
 														   }, _val, _1 )] >> ';';
 					
 					stepsize_fail_.name("stepsize_fail_");
-					stepsize_fail_ = *(char_ - all_names_) >> (no_case[stepfail_name] >> ':')
+					stepsize_fail_ = *(word_ - all_names_) >> (no_case[stepfail_name] >> ':')
 					>> mpfr_rules.rational[phx::bind( [this](R & num, std::string const& str)
 														   {
 															   num = bertini::NumTraits<double>::FromString(str);
 														   }, _val, _1 )] >> ';';
 					
 					steps_increase_.name("steps_increase_");
-					steps_increase_ = *(char_ - all_names_) >> (no_case[stepsincrease_name] >> ':') >> qi::uint_[_val=_1] >> ';';
+					steps_increase_ = *(word_ - all_names_) >> (no_case[stepsincrease_name] >> ':') >> qi::uint_[_val=_1] >> ';';
 					
 					max_num_steps_.name("max_num_steps_");
-					max_num_steps_ = *(char_ - all_names_) >> (no_case[maxnumsteps_name] >> ':') >> qi::uint_[_val=_1] >> ';';
+					max_num_steps_ = *(word_ - all_names_) >> (no_case[maxnumsteps_name] >> ':') >> qi::uint_[_val=_1] >> ';';
 					
 					no_setting_.name("no_setting_");
-					no_setting_ = *(char_ - all_names_);
+					no_setting_ = *(word_ - all_names_);
 					
 					no_decl_.name("no_decl_");
 					no_decl_ = *(char_);
@@ -422,10 +422,10 @@ namespace bertini {
 					all_names_ = eps >> (no_case[maxits_name] >> ':');
 					
 					max_its_.name("max_its_");
-					max_its_ = *(char_ - no_case[maxits_name]) >> (no_case[maxits_name] >> ':') >> qi::uint_[_val=_1] >> ';';
+					max_its_ = *(word_ - all_names_) >> (no_case[maxits_name] >> ':') >> qi::uint_[_val=_1] >> ';';
 					
 					no_setting_.name("no_setting_");
-					no_setting_ = *(char_ - all_names_);
+					no_setting_ = *(word_ - all_names_);
 					
 					no_decl_.name("no_decl_");
 					no_decl_ = *(char_);
@@ -619,43 +619,43 @@ namespace bertini {
 
 
 					degree_bound_.name("degree_bound_");
-					degree_bound_ = *(char_ - all_names_) >> (no_case[degree_bound_name] >> ':')
+					degree_bound_ = *(word_ - all_names_) >> (no_case[degree_bound_name] >> ':')
 					>> mpfr_rules.number_string_[phx::bind( str_to_T, _val, _1 )] >> ';';
 					
 					coefficient_bound_.name("coefficient_bound_");
-					coefficient_bound_ = *(char_ - all_names_) >> (no_case[coefficient_bound_name] >> ':')
+					coefficient_bound_ = *(word_ - all_names_) >> (no_case[coefficient_bound_name] >> ':')
 					>> mpfr_rules.number_string_[phx::bind( str_to_T, _val, _1 )] >> ';';
 					
 					lin_solve_error_bnd_.name("lin_solve_error_bnd_");
-					lin_solve_error_bnd_ = *(char_ - all_names_) >> (no_case[lin_solve_error_bnd_name] >> ':')
+					lin_solve_error_bnd_ = *(word_ - all_names_) >> (no_case[lin_solve_error_bnd_name] >> ':')
 					>> mpfr_rules.number_string_[phx::bind( str_to_T, _val, _1 )] >> ';';
 
 					jac_eval_err_bnd_.name("jac_eval_err_bnd_");
-					jac_eval_err_bnd_ = *(char_ - all_names_) >> (no_case[jac_eval_err_bnd_name] >> ':')
+					jac_eval_err_bnd_ = *(word_ - all_names_) >> (no_case[jac_eval_err_bnd_name] >> ':')
 					>> mpfr_rules.number_string_[phx::bind( str_to_T, _val, _1 )] >> ';';
 
 					func_eval_err_bnd_.name("func_eval_err_bnd_");
-					func_eval_err_bnd_ = *(char_ - all_names_) >> (no_case[func_eval_err_bnd_name] >> ':')
+					func_eval_err_bnd_ = *(word_ - all_names_) >> (no_case[func_eval_err_bnd_name] >> ':')
 					>> mpfr_rules.number_string_[phx::bind( str_to_T, _val, _1 )] >> ';';
 
 					safety_one_.name("safety_one_");
-					safety_one_ = *(char_ - all_names_) >> (no_case[safety_one_name] >> ':') >> qi::int_[_val=_1] >> ';';
+					safety_one_ = *(word_ - all_names_) >> (no_case[safety_one_name] >> ':') >> qi::int_[_val=_1] >> ';';
 
 					safety_two_.name("safety_two_");
-					safety_two_ = *(char_ - all_names_) >> (no_case[safety_two_name] >> ':') >> qi::int_[_val=_1] >> ';';
+					safety_two_ = *(word_ - all_names_) >> (no_case[safety_two_name] >> ':') >> qi::int_[_val=_1] >> ';';
 
 					max_prec_.name("max_prec_");
-					max_prec_ = *(char_ - all_names_) >> (no_case[max_prec_name] >> ':') >> qi::uint_[_val=_1] >> ';';
+					max_prec_ = *(word_ - all_names_) >> (no_case[max_prec_name] >> ':') >> qi::uint_[_val=_1] >> ';';
 
 					consec_steps_prec_dec_.name("consec_steps_prec_dec_");
-					consec_steps_prec_dec_ = *(char_ - all_names_) >> (no_case[consec_steps_prec_dec_name] >> ':') >> qi::uint_[_val=_1] >> ';';
+					consec_steps_prec_dec_ = *(word_ - all_names_) >> (no_case[consec_steps_prec_dec_name] >> ':') >> qi::uint_[_val=_1] >> ';';
 
 					max_num_prec_decs_.name("max_num_prec_decs_");
-					max_num_prec_decs_ = *(char_ - all_names_) >> (no_case[max_num_prec_decs_name] >> ':') >> qi::uint_[_val=_1] >> ';';
+					max_num_prec_decs_ = *(word_ - all_names_) >> (no_case[max_num_prec_decs_name] >> ':') >> qi::uint_[_val=_1] >> ';';
 
 
 					no_setting_.name("no_setting_");
-					no_setting_ = *(char_ - all_names_);
+					no_setting_ = *(word_ - all_names_);
 					
 					no_decl_.name("no_decl_");
 					no_decl_ = *(char_);
-- 
2.43.0


From b1aa8a53f8e2e8d9d48f92686ba6e930654c87b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:49 +0000
Subject: [PATCH 53/76] fix: rational numbers can be given as values of
 settings

The rule for p/q could not match more than p.
---
 core/include/bertini2/io/parsing/number_rules.hpp  |  7 +++----
 .../bertini2/io/parsing/settings_parsers/base.hpp  | 14 ++++++++++++++
 .../io/parsing/settings_parsers/endgames.hpp       |  2 +-
 .../io/parsing/settings_parsers/tracking.hpp       |  6 +++---
 4 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/core/include/bertini2/io/parsing/number_rules.hpp b/core/include/bertini2/io/parsing/number_rules.hpp
index 5a8c7dd..5d9ab33 100644
--- a/core/include/bertini2/io/parsing/number_rules.hpp
+++ b/core/include/bertini2/io/parsing/number_rules.hpp
@@ -163,10 +163,9 @@ namespace bertini{
 					); // finish the rule off
 				
 				rational.name("long_rational");
-				rational =
-				(number_string_
-				|
-				(number_string_ >> char_('/') >> number_string_));
+				rational = eps[_val = std::string()] >>
+				number_string_ [_val += _1]
+				>> -(qi::lit('/')[_val += "/"] >> number_string_ [_val += _1]);
 
 			}
 			
diff --git a/core/include/bertini2/io/parsing/settings_parsers/base.hpp b/core/include/bertini2/io/parsing/settings_parsers/base.hpp
index 7bef71a..c3f1190 100644
--- a/core/include/bertini2/io/parsing/settings_parsers/base.hpp
+++ b/core/include/bertini2/io/parsing/settings_parsers/base.hpp
@@ -50,6 +50,20 @@ namespace bertini {
 			static const auto word_ = boost::proto::deep_copy(qi::omit[qi::lexeme[+(qi::alnum | qi::char_('_'))] | qi::char_]);
 
 
+			/**
+			 The number meant by text such as 1/2, or 0.5
+			 */
+			inline
+			mpq_rational RationalFromString(std::string const& str)
+			{
+				const auto slash = str.find('/');
+				mpq_rational num(NumTraits<double>::FromString(str.substr(0,slash)));
+				if (slash!=std::string::npos)
+					num /= mpq_rational(NumTraits<double>::FromString(str.substr(slash+1)));
+				return num;
+			}
+
+
 			/**
 			 Qi Parser object for parsing config settings  This ensures we can provide backwards compatibility with Bertini Classic input files.
 			 
diff --git a/core/include/bertini2/io/parsing/settings_parsers/endgames.hpp b/core/include/bertini2/io/parsing/settings_parsers/endgames.hpp
index ebf9c72..eb49a2d 100644
--- a/core/include/bertini2/io/parsing/settings_parsers/endgames.hpp
+++ b/core/include/bertini2/io/parsing/settings_parsers/endgames.hpp
@@ -193,7 +193,7 @@ namespace bertini {
 					sample_factor_ = *(word_ - all_names_) >> (no_case[samplefactor_name] >> ':')
 					>> mpfr_rules.rational[phx::bind( [this](R & num, std::string str)
 														   {
-															   num = bertini::NumTraits<double>::FromString(str);
+															   num = RationalFromString(str);
 														   }, _val, _1 )] >> ';';
 					
 					min_track_.name("min_track_");
diff --git a/core/include/bertini2/io/parsing/settings_parsers/tracking.hpp b/core/include/bertini2/io/parsing/settings_parsers/tracking.hpp
index cfd7386..cf589ec 100644
--- a/core/include/bertini2/io/parsing/settings_parsers/tracking.hpp
+++ b/core/include/bertini2/io/parsing/settings_parsers/tracking.hpp
@@ -312,21 +312,21 @@ namespace bertini {
 					max_step_size_ = *(word_ - all_names_) >> (no_case[maxstep_name] >> ':')
 					>> mpfr_rules.rational[phx::bind( [this](T & num, std::string const& str)
 														   {
-															   num = bertini::NumTraits<T>::FromString(str);
+															   num = static_cast<T>(RationalFromString(str));
 														   }, _val, _1 )] >> ';';
 					
 					stepsize_success_.name("stepsize_success_");
 					stepsize_success_ = *(word_ - all_names_) >> (no_case[stepsuccess_name] >> ':')
 					>> mpfr_rules.rational[phx::bind( [this](R & num, std::string const& str)
 														   {
-															num = bertini::NumTraits<double>::FromString(str);
+															num = RationalFromString(str);
 														   }, _val, _1 )] >> ';';
 					
 					stepsize_fail_.name("stepsize_fail_");
 					stepsize_fail_ = *(word_ - all_names_) >> (no_case[stepfail_name] >> ':')
 					>> mpfr_rules.rational[phx::bind( [this](R & num, std::string const& str)
 														   {
-															   num = bertini::NumTraits<double>::FromString(str);
+															   num = RationalFromString(str);
 														   }, _val, _1 )] >> ';';
 					
 					steps_increase_.name("steps_increase_");
-- 
2.43.0


From c4fa6ab0c6bf1a3c743a40e05089a397ffd48415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:49 +0000
Subject: [PATCH 54/76] fix: ODEPredictor 3 is Heun-Euler

---
 core/include/bertini2/io/parsing/settings_parsers/tracking.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/bertini2/io/parsing/settings_parsers/tracking.hpp b/core/include/bertini2/io/parsing/settings_parsers/tracking.hpp
index cf589ec..6a419a5 100644
--- a/core/include/bertini2/io/parsing/settings_parsers/tracking.hpp
+++ b/core/include/bertini2/io/parsing/settings_parsers/tracking.hpp
@@ -168,7 +168,7 @@ namespace bertini {
 					predictor_.add("0", Predictor::Euler);
 					predictor_.add("1", Predictor::Heun);
 					predictor_.add("2", Predictor::RK4);
-					predictor_.add("3", Predictor::Heun);
+					predictor_.add("3", Predictor::HeunEuler);
 					predictor_.add("4", Predictor::RKNorsett34);
 					predictor_.add("5", Predictor::RKF45);
 					predictor_.add("6", Predictor::RKCashKarp45);
-- 
2.43.0


From 8c3ea7b6bc56ba6a5fb29eb15cccc54670562244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:53 +0000
Subject: [PATCH 55/76] fix: step length from AMP criterion B when fewer digits
 are in use than it asks for

---
 core/include/bertini2/trackers/amp_tracker.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/include/bertini2/trackers/amp_tracker.hpp b/core/include/bertini2/trackers/amp_tracker.hpp
index 233a74f..d758ce5 100644
--- a/core/include/bertini2/trackers/amp_tracker.hpp
+++ b/core/include/bertini2/trackers/amp_tracker.hpp
@@ -132,7 +132,9 @@ namespace bertini{
 										unsigned num_newton_iterations,
 										unsigned predictor_order = 0)
 		{
-			return pow(mpfr_float(10), -( digits_B - precision )*num_newton_iterations/(predictor_order+1));
+			// the difference may have either sign, so must not be computed with unsigned numbers
+			const long exponent = (long(precision) - long(digits_B))*long(num_newton_iterations)/(long(predictor_order)+1);
+			return pow(mpfr_float(10), exponent);
 		}
 		
 
-- 
2.43.0


From a625166a2bf24b718023365a2054c0777f5891e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:53 +0000
Subject: [PATCH 56/76] fix: adaptive tracker returns to the initial precision
 before copying the solution when precision is preserved

---
 core/include/bertini2/trackers/amp_tracker.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/include/bertini2/trackers/amp_tracker.hpp b/core/include/bertini2/trackers/amp_tracker.hpp
index d758ce5..9883c7a 100644
--- a/core/include/bertini2/trackers/amp_tracker.hpp
+++ b/core/include/bertini2/trackers/amp_tracker.hpp
@@ -573,6 +573,9 @@ namespace bertini{
 			void CopyFinalSolution(Vec<mpfr_complex> & solution_at_endtime) const override
 			{
 
+				if (preserve_precision_)
+					ChangePrecision(initial_precision_);
+
 				// the current precision is the precision of the output solution point.
 				if (current_precision_==DoublePrecision())
 				{
-- 
2.43.0


From 7336c7c4fce4c95ecb3eca91e3f6adcf590a6208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:37 +0000
Subject: [PATCH 57/76] fix: precision chosen by the adaptive tracker is never
 below the minimum asked for, and exceeding the maximum is reported

---
 .../include/bertini2/trackers/amp_tracker.hpp | 22 +++++++------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/core/include/bertini2/trackers/amp_tracker.hpp b/core/include/bertini2/trackers/amp_tracker.hpp
index 9883c7a..5c407e8 100644
--- a/core/include/bertini2/trackers/amp_tracker.hpp
+++ b/core/include/bertini2/trackers/amp_tracker.hpp
@@ -219,24 +219,18 @@ namespace bertini{
 					}
 				};
 
-			unsigned lowest_mp_precision_to_test = min_precision;
-
 			if (min_precision<=DoublePrecision())
 				minimizer_routine(DoublePrecision());			
 
+			// never consider less than the minimum: round up to a multiple of the increment, if that is within range
+			unsigned lowest_mp_precision_to_test = max(min_precision, LowestMultiplePrecision());
+			unsigned rounded_up = ((lowest_mp_precision_to_test + PrecisionIncrement() - 1)/PrecisionIncrement()) * PrecisionIncrement();
+			if (rounded_up <= max_precision)
+				lowest_mp_precision_to_test = rounded_up;
 
-			if (lowest_mp_precision_to_test < LowestMultiplePrecision())
-				lowest_mp_precision_to_test = LowestMultiplePrecision();
-			else
-				lowest_mp_precision_to_test = (lowest_mp_precision_to_test/PrecisionIncrement()) * PrecisionIncrement(); // use integer arithmetic to round.
-
-
-			if (max_precision < LowestMultiplePrecision())
-				max_precision = LowestMultiplePrecision();
-			else
-				max_precision = (max_precision/PrecisionIncrement()) * PrecisionIncrement(); // use integer arithmetic to round.
-
-			for (unsigned p = lowest_mp_precision_to_test; p <= max_precision; p+=PrecisionIncrement())
+			// the lowest is always a candidate, even if it exceeds the maximum, so that exceeding it is noticed
+			minimizer_routine(lowest_mp_precision_to_test);
+			for (unsigned p = lowest_mp_precision_to_test+PrecisionIncrement(); p <= max_precision; p+=PrecisionIncrement())
 				minimizer_routine(p);
 		}
 
-- 
2.43.0


From 6eb3d16eef0b18a229c938a1e0c828df5f4a5b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:03 +0000
Subject: [PATCH 58/76] fix: endgame sample times approach a nonzero target
 time by the sample factor

---
 core/include/bertini2/endgames/base_endgame.hpp | 2 +-
 core/include/bertini2/endgames/cauchy.hpp       | 2 +-
 core/include/bertini2/endgames/powerseries.hpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/include/bertini2/endgames/base_endgame.hpp b/core/include/bertini2/endgames/base_endgame.hpp
index 6fe1657..5eb9c6b 100644
--- a/core/include/bertini2/endgames/base_endgame.hpp
+++ b/core/include/bertini2/endgames/base_endgame.hpp
@@ -359,7 +359,7 @@ public:
 		//start at 1, because the input point is the 0th element.
 		for(int ii=1; ii < this->template Get<EndgameConfig>().num_sample_points; ++ii)
 		{ 
-			times.emplace_back((times[ii-1] + target_time) * RT(this->template Get<EndgameConfig>().sample_factor)); // next time is a point between the previous time and target time.
+			times.emplace_back(target_time + (times[ii-1] - target_time) * RT(this->template Get<EndgameConfig>().sample_factor)); // next time is a point between the previous time and target time.
 			samples.emplace_back(Vec<CT>(num_vars));											   // sample_factor gives us some point between the two, usually the midpoint.		
 
 			auto tracking_success = this->GetTracker().TrackPath(samples[ii],times[ii-1],times[ii],samples[ii-1]);
diff --git a/core/include/bertini2/endgames/cauchy.hpp b/core/include/bertini2/endgames/cauchy.hpp
index 0044c4e..694cfd3 100644
--- a/core/include/bertini2/endgames/cauchy.hpp
+++ b/core/include/bertini2/endgames/cauchy.hpp
@@ -1022,7 +1022,7 @@ public:
 		auto& current_sample = ps_samples.back();
 
 		//Generalized next_time in case if we are not trying to converge to the t = 0.
-		CT next_time = (target_time-current_time) * static_cast<RT>(this->EndgameSettings().sample_factor)+current_time;
+		CT next_time = target_time + (current_time-target_time) * static_cast<RT>(this->EndgameSettings().sample_factor);
 
 		if (abs(next_time - target_time) < this->EndgameSettings().min_track_time)//we are too close to t = 0 but we do not have the correct tolerance - so we exit
 			return SuccessCode::MinTrackTimeReached;
diff --git a/core/include/bertini2/endgames/powerseries.hpp b/core/include/bertini2/endgames/powerseries.hpp
index 8a6f5f4..d43fdfa 100644
--- a/core/include/bertini2/endgames/powerseries.hpp
+++ b/core/include/bertini2/endgames/powerseries.hpp
@@ -574,7 +574,7 @@ public:
 		AssertSizesTimeSpaceDeriv<CT>();
 
 		Vec<CT> next_sample;
-		CT next_time = (times.back() + target_time) * static_cast<RT>(this->EndgameSettings().sample_factor); //setting up next time value using the midpoint formula, sample_factor will give us some 
+		CT next_time = target_time + (times.back() - target_time) * static_cast<RT>(this->EndgameSettings().sample_factor); //setting up next time value using the midpoint formula, sample_factor will give us some 
 
   		if (abs(next_time - target_time) < this->EndgameSettings().min_track_time) // generalized for target_time not equal to 0.
   		{
-- 
2.43.0


From cb02de4e1c0230cd5e9728fb5d06466d5fd4751d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:03 +0000
Subject: [PATCH 59/76] fix: the Cauchy endgame truncates paths to infinity at
 security level 0, not at the others

---
 core/include/bertini2/endgames/cauchy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/bertini2/endgames/cauchy.hpp b/core/include/bertini2/endgames/cauchy.hpp
index 694cfd3..3922d52 100644
--- a/core/include/bertini2/endgames/cauchy.hpp
+++ b/core/include/bertini2/endgames/cauchy.hpp
@@ -1123,7 +1123,7 @@ public:
 				return SuccessCode::Success;
 			}
 
-			if (this->SecuritySettings().level)
+			if (this->SecuritySettings().level <= 0)
 			{//we are too large, break out of loop to return error.
 				norm_of_dehom_latest = this->GetSystem().DehomogenizePoint(latest_approx).template lpNorm<Eigen::Infinity>();
 
-- 
2.43.0


From 784e2462f765b60a1c68f9b00d7ee7d6f28eb744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:49 +0000
Subject: [PATCH 60/76] fix: the power series endgame reported success when its
 approximation was not a number

---
 core/include/bertini2/endgames/powerseries.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/include/bertini2/endgames/powerseries.hpp b/core/include/bertini2/endgames/powerseries.hpp
index d43fdfa..21051f8 100644
--- a/core/include/bertini2/endgames/powerseries.hpp
+++ b/core/include/bertini2/endgames/powerseries.hpp
@@ -716,6 +716,11 @@ public:
 	 		approx_error = static_cast<NumErrorT>((latest_approx - prev_approx).template lpNorm<Eigen::Infinity>());
 	 		NotifyObservers(ApproximatedRoot<EmitterType>(*this));
 
+	 		if (!(approx_error <= std::numeric_limits<NumErrorT>::max())) // neither infinity nor nan is convergence
+	 		{
+	 			NotifyObservers(EndgameFailure<EmitterType>(*this));
+	 			return SuccessCode::FailedToConverge;
+	 		}
 
 	 		if(this->SecuritySettings().level <= 0)
 	 		{
-- 
2.43.0


From f1750785fd59bccfc9396d91e3308a87155ff2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:54 +0000
Subject: [PATCH 61/76] fix: notify every observer once even if observers are
 added or removed while being notified

---
 core/include/bertini2/detail/observable.hpp | 24 +++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/core/include/bertini2/detail/observable.hpp b/core/include/bertini2/detail/observable.hpp
index 4ccc308..fa0092d 100644
--- a/core/include/bertini2/detail/observable.hpp
+++ b/core/include/bertini2/detail/observable.hpp
@@ -32,6 +32,10 @@
 #ifndef BERTINI_DETAIL_OBSERVABLE_HPP
 #define BERTINI_DETAIL_OBSERVABLE_HPP
 
+#include <algorithm>
+#include <functional>
+#include <vector>
+
 #include "bertini2/detail/observer.hpp"
 #include "bertini2/detail/events.hpp"
 
@@ -88,16 +92,14 @@ namespace bertini{
 		void NotifyObservers(AnyEvent const& e) const
 		{
 
-			for (auto& obs : current_watchers_)
-				obs.get().Observe(e);
+			Notify(e);
 
 		}
 
 		void NotifyObservers(AnyEvent & e) const
 		{
 
-			for (auto& obs : current_watchers_)
-				obs.get().Observe(e);
+			Notify(e);
 		}
 
 
@@ -105,6 +107,20 @@ namespace bertini{
 
 		using ObserverContainer = std::vector<std::reference_wrapper<AnyObserver>>;
 
+		/**
+		\brief Notify each of the observers present now, except those removed before their turn comes.
+
+		Observers may add and remove observers, including themselves, while observing, so this must not iterate over the list of watchers itself.
+		*/
+		void Notify(AnyEvent const& e) const
+		{
+			const ObserverContainer watchers = current_watchers_;
+			for (const auto& obs : watchers)
+				if (std::any_of(current_watchers_.begin(), current_watchers_.end(), [&](const auto& held_obs)
+				                              { return &held_obs.get() == &obs.get(); }))
+					obs.get().Observe(e);
+		}
+
 		mutable ObserverContainer current_watchers_;
 	};
 
-- 
2.43.0


From 1c298eb3bc3fd970f39c182d75a2d18e6a2d6d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:54 +0000
Subject: [PATCH 62/76] fix: announce the start of tracking, which the
 precision recorders wait for

---
 core/include/bertini2/trackers/amp_tracker.hpp             | 1 +
 core/include/bertini2/trackers/fixed_precision_tracker.hpp | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/core/include/bertini2/trackers/amp_tracker.hpp b/core/include/bertini2/trackers/amp_tracker.hpp
index 5c407e8..bee4486 100644
--- a/core/include/bertini2/trackers/amp_tracker.hpp
+++ b/core/include/bertini2/trackers/amp_tracker.hpp
@@ -468,6 +468,7 @@ namespace bertini{
 
 				ChangePrecision<upsample_refine_off>(start_point(0).precision());
 
+				NotifyObservers(TrackingStarted<EmitterType>(*this));
 
 				auto initial_refinement_code = InitialRefinement();
 
diff --git a/core/include/bertini2/trackers/fixed_precision_tracker.hpp b/core/include/bertini2/trackers/fixed_precision_tracker.hpp
index f8f6998..5b809cc 100644
--- a/core/include/bertini2/trackers/fixed_precision_tracker.hpp
+++ b/core/include/bertini2/trackers/fixed_precision_tracker.hpp
@@ -463,6 +463,8 @@ namespace bertini{
 
 				ResetCounters();
 
+				this->NotifyObservers(TrackingStarted<EmitterType>(*this));
+
 				return SuccessCode::Success;
 			}
 
@@ -548,6 +550,8 @@ namespace bertini{
 
 				ResetCounters();
 
+				this->NotifyObservers(TrackingStarted<EmitterType>(*this));
+
 				return SuccessCode::Success;
 			}
 
-- 
2.43.0


From b9d08062a8a8fe403cc45a01ffd2149976e0a43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:07 +0000
Subject: [PATCH 63/76] fix: fixed-precision trackers never lengthened their
 steps, ignoring the settings for it

---
 .../trackers/fixed_precision_tracker.hpp      | 36 ++++++++++++++++---
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/core/include/bertini2/trackers/fixed_precision_tracker.hpp b/core/include/bertini2/trackers/fixed_precision_tracker.hpp
index 5b809cc..27bf8f7 100644
--- a/core/include/bertini2/trackers/fixed_precision_tracker.hpp
+++ b/core/include/bertini2/trackers/fixed_precision_tracker.hpp
@@ -234,6 +234,21 @@ namespace bertini{
 
 
 
+			/**
+			\brief Set the stepsize for the start of a path, and the longest stepsize allowed along it.
+			*/
+			void InitializeStepsize(CT const& start_time, CT const& end_time) const
+			{
+				using std::min;
+				using std::abs;
+				const RT stepsize_for_min_num_steps = abs(start_time-end_time)/Get<Stepping>().min_num_steps;
+
+				max_stepsize_ = min(RT(Get<Stepping>().max_step_size), stepsize_for_min_num_steps);
+				if (this->reinitialize_stepsize_)
+					this->SetStepSize(min(RT(Get<Stepping>().initial_step_size), stepsize_for_min_num_steps));
+			}
+
+
 			/**
 			\brief Commit the next stepsize, and adjust internals.
 			*/
@@ -259,6 +274,19 @@ namespace bertini{
 			void OnStepSuccess() const override
 			{
 				Base::IncrementBaseCountersSuccess();
+
+				if (++this->num_successful_steps_since_stepsize_increase_ >= Get<Stepping>().consecutive_successful_steps_before_stepsize_increase)
+				{
+					using std::min;
+					this->next_stepsize_ = min(RT(RT(Get<Stepping>().step_size_success_factor)*this->current_stepsize_), max_stepsize_);
+
+					if (this->next_stepsize_ > this->current_stepsize_)
+					{
+						UpdateStepsize();
+						this->num_successful_steps_since_stepsize_increase_ = 0;
+					}
+				}
+
 				this->NotifyObservers(SuccessfulStep<EmitterType >(*this));
 			}
 
@@ -405,7 +433,7 @@ namespace bertini{
 			//////
 			//
 
-			// no additional state variables needed for the FixedPrecision base tracker types
+			mutable RT max_stepsize_; ///< The longest step to which the stepsize may grow on the current path, from the settings for the length and number of steps.
 
 		};
 
@@ -458,8 +486,7 @@ namespace bertini{
 				this->current_time_ = start_time;
 				this->endtime_ = end_time;
 				std::get<Vec<BaseComplexType> >(this->current_space_) = start_point;
-				if (this->reinitialize_stepsize_)
-					this->SetStepSize(min(BaseRealType(Get<Stepping>().initial_step_size),abs(start_time-end_time)/Get<Stepping>().min_num_steps));
+				InitializeStepsize(start_time, end_time);
 
 				ResetCounters();
 
@@ -545,8 +572,7 @@ namespace bertini{
 				this->current_time_ = start_time;
 				this->endtime_ = end_time;
 				std::get<Vec<BaseComplexType> >(this->current_space_) = start_point;
-				if (this->reinitialize_stepsize_)
-					this->SetStepSize(min(mpfr_float(Get<Stepping>().initial_step_size),mpfr_float(abs(start_time-end_time)/Get<Stepping>().min_num_steps)));
+				InitializeStepsize(start_time, end_time);
 
 				ResetCounters();
 
-- 
2.43.0


From ff217c4389f29603a522dd81fd2a7f2533af9efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:53 +0000
Subject: [PATCH 64/76] fix: zero-dim solving starts the endgame with times in
 the precision of the boundary point

---
 core/include/bertini2/nag_algorithms/zero_dim_solve.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
index 7ab3919..1ccb36b 100644
--- a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
+++ b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
@@ -731,6 +731,8 @@ std::ostream& operator<<(std::ostream & out, const EGBoundaryMetaData<NumT> & me
 				// we make these fresh so they are in the correct precision to start.
 				BaseComplexType t_end = this->template Get<ZeroDimConf>().target_time;
 				BaseComplexType t_endgame_boundary = this->template Get<ZeroDimConf>().endgame_boundary;
+				Precision(t_end, Precision(bdry_point));
+				Precision(t_endgame_boundary, Precision(bdry_point));
 
 				auto eg_success = GetEndgame().Run(t_endgame_boundary, bdry_point, t_end);
 
-- 
2.43.0


From 063f35360fff954a9646ea10d4091d73bb2046d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:53 +0000
Subject: [PATCH 65/76] fix: zero-dim solving checks for crossed paths in the
 ambient precision

---
 core/include/bertini2/nag_algorithms/zero_dim_solve.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
index 1ccb36b..09eeb59 100644
--- a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
+++ b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
@@ -655,12 +655,15 @@ std::ostream& operator<<(std::ostream & out, const EGBoundaryMetaData<NumT> & me
 
 			void EGBoundaryAction()
 			{
+				// the check generates start points, in the precision in which they were tracked from; tracking may have left another one.
+				DefaultPrecision(this->template Get<ZeroDimConf>().initial_ambient_precision);
 				auto midcheckpassed = midpath_.Check(solutions_at_endgame_boundary_, StartSystem());
 
 				unsigned num_resolve_attempts = 0;
 				while (!midcheckpassed && num_resolve_attempts < this->template Get<ZeroDimConf>().max_num_crossed_path_resolve_attempts)
 				{
 					MidpathResolve();
+					DefaultPrecision(this->template Get<ZeroDimConf>().initial_ambient_precision);
 					midcheckpassed = midpath_.Check(solutions_at_endgame_boundary_, StartSystem());
 					num_resolve_attempts++;
 				}
-- 
2.43.0


From 2ecaf23d6a3561b9d5d65bb6d1e2042cc10f8471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:19 +0000
Subject: [PATCH 66/76] fix: solving again starts from nothing, instead of
 adding to the metadata of the previous solve

---
 core/include/bertini2/nag_algorithms/zero_dim_solve.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
index 09eeb59..6f74676 100644
--- a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
+++ b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
@@ -574,9 +574,10 @@ std::ostream& operator<<(std::ostream & out, const EGBoundaryMetaData<NumT> & me
 			{
 				auto num_as_size_t = static_cast<SolnIndT>(num_start_points_);
 
-				solution_final_metadata_.resize(num_as_size_t);
-				solutions_at_endgame_boundary_.resize(num_as_size_t);
-				solutions_post_endgame_.resize(num_as_size_t);
+				// nothing computed by a previous solve may remain
+				solution_final_metadata_.assign(num_as_size_t, SolutionMetaDataT());
+				solutions_at_endgame_boundary_.assign(num_as_size_t, EGBoundaryMetaDataT());
+				solutions_post_endgame_.assign(num_as_size_t, Vec<BaseComplexType>());
 
 				SetMidpathRetrackTol(this->template Get<Tolerances>().newton_before_endgame);
 			}
-- 
2.43.0


From 98e9ea874183a3b61755f7e4e6f25930a823640a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:02 +0000
Subject: [PATCH 67/76] fix: zero-dim solving generates start points with the
 start system in the ambient precision

---
 .../nag_algorithms/zero_dim_solve.hpp         | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
index 6f74676..41cf763 100644
--- a/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
+++ b/core/include/bertini2/nag_algorithms/zero_dim_solve.hpp
@@ -591,7 +591,7 @@ std::ostream& operator<<(std::ostream & out, const EGBoundaryMetaData<NumT> & me
 			*/
 			void TrackBeforeEG()
 			{
-				DefaultPrecision(this->template Get<ZeroDimConf>().initial_ambient_precision);
+				ReturnToAmbientPrecision();
 
 				GetTracker().SetTrackingTolerance(this->template Get<Tolerances>().newton_before_endgame);
 
@@ -606,6 +606,17 @@ std::ostream& operator<<(std::ostream & out, const EGBoundaryMetaData<NumT> & me
 
 
 
+			/**
+			\brief Set the default precision, and that of the start system, to the one in which start points are generated.
+			*/
+			void ReturnToAmbientPrecision()
+			{
+				const auto ambient_precision = this->template Get<ZeroDimConf>().initial_ambient_precision;
+				DefaultPrecision(ambient_precision);
+				StartSystem().precision(ambient_precision);
+			}
+
+
 			/**
 			 /brief Track a single path before we reach the endgame boundary.
 			*/
@@ -623,7 +634,7 @@ std::ostream& operator<<(std::ostream & out, const EGBoundaryMetaData<NumT> & me
 					smd.path_index = soln_ind;
 					smd.solution_index = soln_ind;
 
-				DefaultPrecision(this->template Get<ZeroDimConf>().initial_ambient_precision);
+				ReturnToAmbientPrecision();
 				auto t_start = this->template Get<ZeroDimConf>().start_time;
 				auto t_endgame_boundary = this->template Get<ZeroDimConf>().endgame_boundary;
 				auto start_point = StartSystem().template StartPoint<BaseComplexType>(soln_ind);
@@ -657,14 +668,14 @@ std::ostream& operator<<(std::ostream & out, const EGBoundaryMetaData<NumT> & me
 			void EGBoundaryAction()
 			{
 				// the check generates start points, in the precision in which they were tracked from; tracking may have left another one.
-				DefaultPrecision(this->template Get<ZeroDimConf>().initial_ambient_precision);
+				ReturnToAmbientPrecision();
 				auto midcheckpassed = midpath_.Check(solutions_at_endgame_boundary_, StartSystem());
 
 				unsigned num_resolve_attempts = 0;
 				while (!midcheckpassed && num_resolve_attempts < this->template Get<ZeroDimConf>().max_num_crossed_path_resolve_attempts)
 				{
 					MidpathResolve();
-					DefaultPrecision(this->template Get<ZeroDimConf>().initial_ambient_precision);
+					ReturnToAmbientPrecision();
 					midcheckpassed = midpath_.Check(solutions_at_endgame_boundary_, StartSystem());
 					num_resolve_attempts++;
 				}
-- 
2.43.0


From 145204842ebe9fe10a98009ee443d4eccb221c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:09 +0000
Subject: [PATCH 68/76] fix: an endgame that fails at once does not report the
 approximation of an earlier run, or nothing

---
 core/include/bertini2/endgames/base_endgame.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/include/bertini2/endgames/base_endgame.hpp b/core/include/bertini2/endgames/base_endgame.hpp
index 5eb9c6b..0b2846a 100644
--- a/core/include/bertini2/endgames/base_endgame.hpp
+++ b/core/include/bertini2/endgames/base_endgame.hpp
@@ -151,6 +151,12 @@ public:
 	*/
 	SuccessCode Run(const BCT & start_time, const Vec<BCT> & start_point, BCT const& target_time)
 	{
+		// the endgame may fail before it computes an approximation.  then the start point stands for it, rather than what a previous run computed, or nothing.
+		final_approximation_ = start_point;
+		previous_approximation_ = final_approximation_;
+		approximate_error_ = 1;
+		cycle_number_ = 0;
+
 		return this->AsFlavor().RunImpl(start_time, start_point, target_time);
 	}
 
-- 
2.43.0


From 46f12ad44a6ada8b1f5aa58887a18e559a4412c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:37 +0000
Subject: [PATCH 69/76] fix: move the precision of everything below a function,
 also when the function itself is there already

The nodes below may be shared with other expressions, through which they were moved.
---
 core/src/function_tree/roots/function.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/core/src/function_tree/roots/function.cpp b/core/src/function_tree/roots/function.cpp
index f1dadfb..5fe2c86 100644
--- a/core/src/function_tree/roots/function.cpp
+++ b/core/src/function_tree/roots/function.cpp
@@ -187,13 +187,10 @@ bool Handle::IsHomogeneous(VariableGroup const& vars) const
 void Handle::precision(unsigned int prec) const
 {
 	auto& val_pair = std::get< std::pair<mpfr_complex,bool> >(current_value_);
-	if (val_pair.first.precision()==prec)
-		return;
-	else{
-		val_pair.first.precision(prec);
-		entry_node_->precision(prec);
-	}
-	
+	val_pair.first.precision(prec);
+
+	// no shortcut if this is in the right precision already: the nodes below may be shared with other expressions, and have been moved through those.
+	entry_node_->precision(prec);
 }
 
 
-- 
2.43.0


From 2f8456f375f2f14e7f15cb0dfa9efb8800bd106b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:37 +0000
Subject: [PATCH 70/76] fix: user start systems return their points in the
 working precision

---
 core/src/system/start/user.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/system/start/user.cpp b/core/src/system/start/user.cpp
index 33fdde0..3647550 100644
--- a/core/src/system/start/user.cpp
+++ b/core/src/system/start/user.cpp
@@ -83,7 +83,10 @@ namespace bertini {
 			}
 			else
 			{
-				return std::get<SampCont<mpfr_complex>>(solns_)[index];
+				// the supplied point keeps its own digits; what is returned is in the working precision
+				auto pt = std::get<SampCont<mpfr_complex>>(solns_)[index];
+				Precision(pt, DefaultPrecision());
+				return pt;
 			}
 		}
 
-- 
2.43.0


From b3da6f02978f56d777ac6e772ea4631d11706ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:56 +0000
Subject: [PATCH 71/76] fix: the blackbox builds the endgame it was asked for,
 not always Cauchy

---
 core/include/bertini2/blackbox/switches_zerodim.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/bertini2/blackbox/switches_zerodim.hpp b/core/include/bertini2/blackbox/switches_zerodim.hpp
index c02f3f9..cecfbd4 100644
--- a/core/include/bertini2/blackbox/switches_zerodim.hpp
+++ b/core/include/bertini2/blackbox/switches_zerodim.hpp
@@ -69,14 +69,14 @@ template <typename StartType, typename TrackerType, typename EndgameType, typena
 std::unique_ptr<algorithm::AnyZeroDim> ZeroDimSpecifyShouldClone(std::true_type, ConstTs const& ...ts)
 {
 	return ZeroDimSpecifyComplete<StartType, TrackerType, 
-			typename endgame::EndgameSelector<TrackerType>::Cauchy, policy::CloneGiven>(ts...);
+			EndgameType, policy::CloneGiven>(ts...);
 }
 
 template <typename StartType, typename TrackerType, typename EndgameType, typename ... ConstTs>
 std::unique_ptr<algorithm::AnyZeroDim> ZeroDimSpecifyShouldClone(std::false_type, ConstTs const& ...ts)
 {
 	return ZeroDimSpecifyComplete<StartType, TrackerType, 
-			typename endgame::EndgameSelector<TrackerType>::Cauchy, policy::RefToGiven>(ts...);
+			EndgameType, policy::RefToGiven>(ts...);
 }
 
 
-- 
2.43.0


From 16d2b7bf6589022a27f0f69177c8a371491d01a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:56 +0000
Subject: [PATCH 72/76] fix: WitnessSet::GetPoint rejects the index one past
 the last point

---
 core/include/bertini2/nag_datatypes/witness_set.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/bertini2/nag_datatypes/witness_set.hpp b/core/include/bertini2/nag_datatypes/witness_set.hpp
index a9a14b8..0da9f1f 100644
--- a/core/include/bertini2/nag_datatypes/witness_set.hpp
+++ b/core/include/bertini2/nag_datatypes/witness_set.hpp
@@ -159,10 +159,10 @@ public:
 			*/
 			const Vec<NumT>& GetPoint(IndexT ind) const
 			{
-				if (ind > Degree())
+				if (ind >= Degree())
 				{
 					std::stringstream ss;
-					ss << "asking for point of index " << ind << ", outside range [0,"<<Degree()-1 << "].";
+					ss << "asking for point of index " << ind << ", outside range [0,"<<Degree() << ").";
 					throw std::runtime_error(ss.str());
 				}
 
-- 
2.43.0


From d3381bbedd375b71ba768f41bebb0a9b7924f787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:56 +0000
Subject: [PATCH 73/76] fix: WitnessSet::IsConsistent asks the system for a
 count it has

---
 core/include/bertini2/nag_datatypes/witness_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/bertini2/nag_datatypes/witness_set.hpp b/core/include/bertini2/nag_datatypes/witness_set.hpp
index 0da9f1f..df6108e 100644
--- a/core/include/bertini2/nag_datatypes/witness_set.hpp
+++ b/core/include/bertini2/nag_datatypes/witness_set.hpp
@@ -226,7 +226,7 @@ public:
 			*/
 			bool IsConsistent() const
 			{
-				return (GetSystem().NumVariables() - GetSystem().NumFunctions()) == GetSlice().Dimension();
+				return (GetSystem().NumVariables() - GetSystem().NumTotalFunctions()) == GetSlice().Dimension();
 			}
 
 
-- 
2.43.0


From 98d56009a1cb30066f0898499fdbe4b837612e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:56 +0000
Subject: [PATCH 74/76] fix: Pool::Make does not make, and leak, a second
 object

---
 core/include/bertini2/pool/pool.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/core/include/bertini2/pool/pool.hpp b/core/include/bertini2/pool/pool.hpp
index 82bc13a..b5f48e9 100644
--- a/core/include/bertini2/pool/pool.hpp
+++ b/core/include/bertini2/pool/pool.hpp
@@ -92,8 +92,6 @@ namespace bertini {
 		static
 		HeldType Make(Ts&& ...ts )
 		{
-			ObjT* obj = new ObjT(ts...);
-
 			// held_data_.push_back(PointerPolicy::DefaultConstructed());
 			auto thing = std::shared_ptr<ObjT>(new ObjT(ts...));
 			held_data_.push_back(thing);
-- 
2.43.0


From f9237483508fa3f8e6d05acea8a6c56b8aa53adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:56 +0000
Subject: [PATCH 75/76] fix: Pool::PurgeCache removes what it purges from the
 pool

---
 core/include/bertini2/pool/pool.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/include/bertini2/pool/pool.hpp b/core/include/bertini2/pool/pool.hpp
index b5f48e9..4a281cc 100644
--- a/core/include/bertini2/pool/pool.hpp
+++ b/core/include/bertini2/pool/pool.hpp
@@ -101,7 +101,9 @@ namespace bertini {
 		static
 		void PurgeCache()
 		{
-			std::remove_if(held_data_.begin(), held_data_.end(), [](HeldType const& h){return h.use_count()==1;});
+			held_data_.erase(
+				std::remove_if(held_data_.begin(), held_data_.end(), [](HeldType const& h){return h.use_count()==1;}),
+				held_data_.end());
 		}
 
 	private:
-- 
2.43.0


From 761b0b3ad982ee3494fbc5cb6f9758d1ad42395c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:04 +0000
Subject: [PATCH 76/76] fix: trackers of fixed precision report the length of
 the last Newton step

---
 .../trackers/fixed_precision_tracker.hpp      |  3 +++
 .../bertini2/trackers/newton_corrector.hpp    | 24 ++++++++++++++++++-
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/core/include/bertini2/trackers/fixed_precision_tracker.hpp b/core/include/bertini2/trackers/fixed_precision_tracker.hpp
index 27bf8f7..1a2f24e 100644
--- a/core/include/bertini2/trackers/fixed_precision_tracker.hpp
+++ b/core/include/bertini2/trackers/fixed_precision_tracker.hpp
@@ -358,6 +358,7 @@ namespace bertini{
 								CT const& current_time) const
 			{
 				return this->corrector_->Correct(corrected_space,
+												this->norm_delta_z_,
 												this->tracked_system_,
 												current_space,
 												current_time, 
@@ -384,6 +385,7 @@ namespace bertini{
 								Vec<CT> const& start_point, CT const& current_time) const
 			{
 				return this->corrector_->Correct(new_space,
+							   this->norm_delta_z_,
 							   this->tracked_system_,
 							   start_point,
 							   current_time, 
@@ -416,6 +418,7 @@ namespace bertini{
 								NumErrorT const& tolerance, unsigned max_iterations) const
 			{
 				return this->corrector_->Correct(new_space,
+							   this->norm_delta_z_,
 							   this->tracked_system_,
 							   start_point,
 							   current_time, 
diff --git a/core/include/bertini2/trackers/newton_corrector.hpp b/core/include/bertini2/trackers/newton_corrector.hpp
index e697cf7..85e8704 100644
--- a/core/include/bertini2/trackers/newton_corrector.hpp
+++ b/core/include/bertini2/trackers/newton_corrector.hpp
@@ -139,6 +139,26 @@ namespace bertini{
 				
 				template <typename ComplexType>
 				SuccessCode Correct(Vec<ComplexType> & next_space,
+									   System const& S,
+									   Vec<ComplexType> const& current_space,
+									   ComplexType const& current_time,
+									   NumErrorT const& tracking_tolerance,
+									   unsigned min_num_newton_iterations,
+									   unsigned max_num_newton_iterations)
+				{
+					NumErrorT norm_delta_z;
+					return Correct(next_space, norm_delta_z, S, current_space, current_time, tracking_tolerance, min_num_newton_iterations, max_num_newton_iterations);
+				}
+
+
+				/**
+				 \brief Run Newton's method in fixed precision, also reporting the length of the last Newton step taken.
+
+				 \param[out] norm_delta_z The norm of the last step size.
+				 */
+				template <typename ComplexType>
+				SuccessCode Correct(Vec<ComplexType> & next_space,
+									   NumErrorT & norm_delta_z,
 									   System const& S,
 									   Vec<ComplexType> const& current_space, // pass by value to get a copy of it
 									   ComplexType const& current_time,
@@ -162,7 +182,9 @@ namespace bertini{
 						
 						next_space += step_ref;
 						
-						if ( (step_ref.template lpNorm<Eigen::Infinity>() < tracking_tolerance) && (ii >= (min_num_newton_iterations-1)) )
+						norm_delta_z = NumErrorT(step_ref.template lpNorm<Eigen::Infinity>());
+
+						if ( (norm_delta_z < tracking_tolerance) && (ii >= (min_num_newton_iterations-1)) )
 							return SuccessCode::Success;
 					}
 					
-- 
2.43.0

