"""The planted bugs: edits to the original sources, each with a small program showing the broken behaviour."""
S = "core/src/"; I = "core/include/bertini2/"
AR = S + "function_tree/operators/arithmetic.cpp"
BUGS = []
def bug(id, property, edit, needs, breaks, demo, inc="", pre=""):
    BUGS.append(dict(id=id, property=property, edit=edit, needs=needs, breaks=breaks, demo=demo, inc=inc, pre=pre))

bug("p02-quotient-chain", "P02", {AR: [("				term_ii->AddOperand(operands_[jj],mult_or_div_[jj]);\n", "				term_ii->AddOperand(operands_[jj],(mult_or_div_[ii] || jj<ii) ? mult_or_div_[jj] : true);\n")]},
 "a product with a divided factor depending on the variable, followed by another divided factor: x/y/z differentiated with respect to y",
 "the quotient rule term puts later divisors in the numerator",
 r'''
	auto x = Variable::Make("x"), y = Variable::Make("y"), z = Variable::Make("z");
	auto f = MultOperator::Make(x,true,y,false); f->AddOperand(z,false);
	auto d = f->Differentiate(y);
	x->set_current_value(dbl(2)); y->set_current_value(dbl(3)); z->set_current_value(dbl(5));
	d->Reset();
	EXPECT(near(d->Eval<dbl>(), dbl(-2./(9*5))));
''')

bug("p07-slp-trivial-power", "P07", {S + "system/straight_line_program.cpp": [("		auto location_operand = locations_encountered_nodes_[operand];\n\n\n\n		if (this->locations_integers_", "		auto location_operand = locations_encountered_nodes_[operand];\n\n		// first powers need no instruction\n		if (expo<2 && expo!=0)\n		{\n			locations_encountered_nodes_[as_ptr] = location_operand;\n			return;\n		}\n\n		if (this->locations_integers_")]},
 "a negative integer power in a system evaluated through its straight line program",
 "the straight line program treats x^-1, x^-2, ... as x",
 r'''
	auto x = Variable::Make("x"), y = Variable::Make("y");
	System sys; sys.AddVariableGroup(VariableGroup{x,y});
	sys.AddFunction(pow(x,-2)+y); sys.AddFunction(x*y-1);
	Vec<dbl> v(2); v << dbl(2), dbl(3);
	for (auto m : {EvalMethod::FunctionTree, EvalMethod::SLP})
	{
		sys.SetEvalMethod(m); sys.Differentiate();
		auto r = sys.Eval(v);
		EXPECT(near(r(0), dbl(3.25)));
	}
''')

bug("p08-concatenate-skip", "P08", {S + "system/system.cpp": [("		for (unsigned ii(0); ii<sys2.NumNaturalFunctions(); ++ii)\n			sys1.AddFunction(sys2.Function(ii));\n", "		for (unsigned ii(0); ii<sys2.NumNaturalFunctions(); ++ii)\n			if (ii>=sys1.NumNaturalFunctions() || sys1.Function(ii)!=sys2.Function(ii))\n				sys1.AddFunction(sys2.Function(ii));\n")]},
 "concatenating systems which share a function node at the same position, for instance a system with a copy of itself",
 "functions the systems share are dropped from the concatenation",
 r'''
	auto x = Variable::Make("x"), y = Variable::Make("y");
	System sys; sys.AddVariableGroup(VariableGroup{x,y});
	sys.AddFunction(x+y); sys.AddFunction(x*y-1);
	System c = Concatenate(sys, sys);
	EXPECT(c.NumNaturalFunctions()==4);
''')

bug("p04-hom-deficit", "P04", {AR: [("		maxdegree = std::max(maxdegree, local_degree);\n	}\n	\n	for (auto iter = operands_.begin(); iter!=operands_.end(); iter++)\n	{\n		auto degree_deficiency = maxdegree - *(term_degrees.begin() + (iter-operands_.begin()));\n", "		maxdegree = std::max(maxdegree, local_degree);\n	}\n	\n	for (auto iter = operands_.begin(); iter!=operands_.end(); iter++)\n	{\n		if ((*iter)->Degree(vars)==0 && iter!=operands_.begin() && term_degrees.back()>0)\n			continue; // constants\n		auto degree_deficiency = maxdegree - *(term_degrees.begin() + (iter-operands_.begin()));\n")]},
 "a sum with a constant term that is neither the first nor the last",
 "constants in the middle of a sum are not multiplied up, so the homogenized system is not homogeneous",
 r'''
	auto x = Variable::Make("x"), y = Variable::Make("y");
	System sys; sys.AddVariableGroup(VariableGroup{x,y});
	auto f = SumOperator::Make(x*x,true,Integer::Make(3),true); f->AddOperand(y,true);
	sys.AddFunction(f); sys.AddFunction(x*y-1);
	sys.Homogenize();
	EXPECT(sys.IsHomogeneous());
	Vec<dbl> v(3); v << dbl(2), dbl(3), dbl(5);
	auto r = sys.Eval(v);
	EXPECT(near(r(0), dbl(9+12+10)));
''')

bug("p05-nested-quotient", "P05", {AR: [("				new_ops.push_back(!(converted->mult_or_div_[jj] ^ this->mult_or_div_[ii]));\n", "				new_ops.push_back(converted->mult_or_div_[jj] && this->mult_or_div_[ii]);\n")]},
 "a quotient divided by a quotient: a/(b/c) flattened by simplification",
 "the divisor of a divided quotient ends up in the denominator",
 r'''
	auto x = Variable::Make("x"), y = Variable::Make("y"), z = Variable::Make("z");
	x->set_current_value(dbl(2)); y->set_current_value(dbl(3)); z->set_current_value(dbl(5));
	shared_ptr<Node> f = x/(y/z);
	auto before = f->Eval<dbl>();
	Simplify(f); f->Reset();
	EXPECT(near(f->Eval<dbl>(), dbl(10./3))); EXPECT(near(before, dbl(10./3)));
''', inc='#include <bertini2/function_tree/simplify.hpp>\n')

bug("p03-power-multidegree", "P03", {AR: [("int MultOperator::Degree(std::shared_ptr<Variable> const& v) const\n{\n	int deg = 0;\n", "int MultOperator::Degree(std::shared_ptr<Variable> const& v) const\n{\n	if (operands_.size()>1 && !mult_or_div_.back() && operands_.back()->Degree(v)>0 && operands_.front()->Degree(v)==0)\n		return 0;\n	int deg = 0;\n")]},
 "a quotient whose numerator does not have the variable and whose last divisor does",
 "1/x is reported as a polynomial of degree 0 in x",
 r'''
	auto x = Variable::Make("x"), y = Variable::Make("y");
	shared_ptr<Node> f = y/x;
	EXPECT(f->Degree(x) < 0);
	EXPECT(!f->IsPolynomial(x));
''')
