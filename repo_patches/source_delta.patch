From b44cb00468df56ff355318dc4b5f7fed833c4ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:26 +0000
Subject: [PATCH 01/37] fix: TermForm.ToString called itself endlessly (crash
 with -debug)

---
 src/Unif/parsing.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Unif/parsing.go b/src/Unif/parsing.go
index c8a80fc..13b120d 100644
--- a/src/Unif/parsing.go
+++ b/src/Unif/parsing.go
@@ -42,7 +42,7 @@ type TermForm struct {
 	t     AST.Term
 }
 
-func (t TermForm) ToString() string          { return t.ToString() }
+func (t TermForm) ToString() string          { return t.GetTerm().ToString() }
 func (t TermForm) GetTerm() AST.Term         { return t.t.Copy() }
 func (t TermForm) Copy() AST.Form            { return makeTermForm(t.GetIndex(), t.GetTerm()) }
 func (t TermForm) RenameVariables() AST.Form { return t }
-- 
2.43.0


From a54cb01ec5147e5e353827efb5690369bf06c5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:26 +0000
Subject: [PATCH 02/37] fix: bse: the rules rewriting the right-hand side
 dropped it (unsound equality proofs)

---
 src/Mods/equality/bse/equality_rules_apply.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Mods/equality/bse/equality_rules_apply.go b/src/Mods/equality/bse/equality_rules_apply.go
index 40d6e8a..d69088b 100644
--- a/src/Mods/equality/bse/equality_rules_apply.go
+++ b/src/Mods/equality/bse/equality_rules_apply.go
@@ -80,7 +80,7 @@ func applyLeftRule(rs ruleStruct, ep EqualityProblem, father_chan chan answerEP,
 		if rs.getIsSModified() {
 			new_eq_list[rs.getIndexEQList()] = eqStruct.MakeTermPair(new_term.Copy(), rs.getT())
 		} else {
-			new_eq_list[rs.getIndexEQList()] = eqStruct.MakeTermPair(rs.getS(), new_term.Copy())
+			new_eq_list[rs.getIndexEQList()] = eqStruct.MakeTermPair(rs.getT(), new_term.Copy())
 		}
 		debug(
 			Lib.MkLazy(func() string { return fmt.Sprintf("New EQ list : %v", new_eq_list.ToString()) }),
@@ -110,7 +110,7 @@ func applyRightRule(rs ruleStruct, ep EqualityProblem, father_chan chan answerEP
 		if rs.getIsSModified() {
 			tryEqualityReasoningProblem(makeEqualityProblem(ep.copy().GetE(), new_term.Copy(), rs.getT(), new_cl), father_chan, rs.getIndexEQList(), RIGHT, father_id)
 		} else {
-			tryEqualityReasoningProblem(makeEqualityProblem(ep.copy().GetE(), rs.getS(), new_term.Copy(), new_cl), father_chan, rs.getIndexEQList(), RIGHT, father_id)
+			tryEqualityReasoningProblem(makeEqualityProblem(ep.copy().GetE(), rs.getT(), new_term.Copy(), new_cl), father_chan, rs.getIndexEQList(), RIGHT, father_id)
 		}
 	} else {
 		debug(
-- 
2.43.0


From 64bbf47df926aaabe2e6f12ab49d781bee09b2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:26 +0000
Subject: [PATCH 03/37] fix: sateq: a constraint between two classes compared a
 class with itself (unsound)

---
 src/Mods/equality/sateq/satbuilder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Mods/equality/sateq/satbuilder.go b/src/Mods/equality/sateq/satbuilder.go
index 2a12c85..90c6b4f 100644
--- a/src/Mods/equality/sateq/satbuilder.go
+++ b/src/Mods/equality/sateq/satbuilder.go
@@ -199,7 +199,7 @@ func (sb *SatBuilder) 𝜓Constraint(index int, ec1, ec2 *eqClass) {
 	for _, tr1 := range sb.problem.TermsInClass(ec1).Slice() {
 		if !tr1.isMeta() && len(tr1.args) != 0 {
 			for _, tr2 := range sb.problem.TermsWithSymbol(tr1.index).Slice() {
-				if !tr1.eqClass.congruent(tr2.eqClass) {
+				if tr2.eqClass.congruent(ec2) {
 					fVar := sb.getVarFromFMapping(index, tr1, tr2)
 					vars2 := []Lit{fVar}
 
-- 
2.43.0


From 8582584f7a4aa4df1e367aaf5a03bb2ac02a672b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:26 +0000
Subject: [PATCH 04/37] fix: sateq: index a term under the classes of its
 arguments, as congruence needs

---
 src/Mods/equality/sateq/problem.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Mods/equality/sateq/problem.go b/src/Mods/equality/sateq/problem.go
index 7c409c6..41af7c4 100644
--- a/src/Mods/equality/sateq/problem.go
+++ b/src/Mods/equality/sateq/problem.go
@@ -147,7 +147,9 @@ func (problem *Problem) addNewTermRecord(tr *termRecord) *eqClass {
 			problem.functionsIndex[tr.index] = Glob.NewList[*termRecord]()
 		}
 		problem.functionsIndex[tr.index].Append(tr)
-		problem.supertermIndex[ec].Append(tr)
+		for _, arg := range tr.args {
+			problem.supertermIndex[arg.representative()].AppendIfNotContains(tr)
+		}
 	}
 	return ec
 }
-- 
2.43.0


From 6a0b783bcf9196914fd105e544c4be665d830576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:26 +0000
Subject: [PATCH 05/37] fix: type arguments of functions were ignored by term
 unification and equality reasoning

---
 src/Unif/matching_substitutions.go | 2 +-
 src/Unif/substitutions_tree.go     | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Unif/matching_substitutions.go b/src/Unif/matching_substitutions.go
index 7ed91cb..5a387aa 100644
--- a/src/Unif/matching_substitutions.go
+++ b/src/Unif/matching_substitutions.go
@@ -126,7 +126,7 @@ func translateTermRec(term AST.Term) AST.Term {
 }
 
 func MkMixedFromSubst(subst Substitution) MixedSubstitution {
-	return MixedSubstitution{Lib.MkRight[TySubstitution, Substitution](subst)}
+	return translateFromSubst(subst)
 }
 
 func MkMixedFromTy(subst TySubstitution) MixedSubstitution {
diff --git a/src/Unif/substitutions_tree.go b/src/Unif/substitutions_tree.go
index 5a9be9e..ddb8c39 100644
--- a/src/Unif/substitutions_tree.go
+++ b/src/Unif/substitutions_tree.go
@@ -236,12 +236,15 @@ func tryUnification(term1, term2 AST.Term, meta Substitutions) []MatchingSubstit
 				term2.ToString())
 		}),
 	)
+	// The type arguments are unified as (the first) arguments of a function, on both sides
+	terms := getFunctionalArguments(Lib.NewList[AST.Ty](), Lib.MkListV(term1, term2))
+
 	aux := makeMachine()
-	aux.terms = Lib.MkListV(term2)
+	aux.terms = Lib.MkListV(terms.At(1))
 	aux.meta = meta
 
 	// add begin at the start and end at the end !
-	tree := makeBranch(ParseTerm(term1.Copy()))
+	tree := makeBranch(ParseTerm(terms.At(0)))
 	res := aux.unifyAux(*tree)
 	return res
 }
-- 
2.43.0


From 3c90f24d79cee9a4a9c8c25563d8092d2ed10344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:46 +0000
Subject: [PATCH 06/37] fix: bse: equalities were keyed by printed terms, which
 mixes up metavariables and type arguments (unsound)

---
 src/Mods/equality/bse/constraints_list.go     |  8 +++----
 src/Mods/equality/bse/equality_problem.go     | 22 ++++++++++++++++---
 .../equality/bse/equality_rules_try_apply.go  |  2 +-
 src/Mods/equality/bse/equality_rules_utils.go | 16 ++++++++++++++
 4 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/Mods/equality/bse/constraints_list.go b/src/Mods/equality/bse/constraints_list.go
index 203f66d..019c5bf 100644
--- a/src/Mods/equality/bse/constraints_list.go
+++ b/src/Mods/equality/bse/constraints_list.go
@@ -128,17 +128,17 @@ func (cl ConstraintList) checkConstraintList() bool {
 		debug(Lib.MkLazy(func() string { return fmt.Sprintf("Constraint : %v", c.toString()) }))
 		switch c.getCType() {
 		case PREC:
-			if !appendToMapAndCheck(c.getTP().GetT1().ToString(), c.getTP().GetT2(), &map_constraintes, 1, 2) {
+			if !appendToMapAndCheck(termKey(c.getTP().GetT1()), c.getTP().GetT2(), &map_constraintes, 1, 2) {
 				return false
 			}
-			if !appendToMapAndCheck(c.getTP().GetT2().ToString(), c.getTP().GetT1(), &map_constraintes, 2, 2) {
+			if !appendToMapAndCheck(termKey(c.getTP().GetT2()), c.getTP().GetT1(), &map_constraintes, 2, 2) {
 				return false
 			}
 		case EQ:
-			if !appendToMapAndCheck(c.getTP().GetT1().ToString(), c.getTP().GetT2(), &map_constraintes, 0, 2) {
+			if !appendToMapAndCheck(termKey(c.getTP().GetT1()), c.getTP().GetT2(), &map_constraintes, 0, 2) {
 				return false
 			}
-			if !appendToMapAndCheck(c.getTP().GetT2().ToString(), c.getTP().GetT1(), &map_constraintes, 0, 2) {
+			if !appendToMapAndCheck(termKey(c.getTP().GetT2()), c.getTP().GetT1(), &map_constraintes, 0, 2) {
 				return false
 			}
 		}
diff --git a/src/Mods/equality/bse/equality_problem.go b/src/Mods/equality/bse/equality_problem.go
index 803d84e..d09c210 100644
--- a/src/Mods/equality/bse/equality_problem.go
+++ b/src/Mods/equality/bse/equality_problem.go
@@ -131,7 +131,23 @@ func makeEqualityProblemList(E Equalities, goal []eqStruct.TermPair) EqualityPro
 }
 
 func makeEqualityProblem(E Equalities, s AST.Term, t AST.Term, c ConstraintStruct) EqualityProblem {
-	return EqualityProblem{makeDataStructFromEqualities(E.copy()), makeEQMapFromEqualities(E.copy()), E.copy(), s.Copy(), t.Copy(), c.copy()}
+	equalities := Equalities{}
+	for _, e := range E {
+		equalities = append(equalities, eqStruct.MakeTermPair(foldTypeArgs(e.GetT1()), foldTypeArgs(e.GetT2())))
+	}
+	return EqualityProblem{
+		makeDataStructFromEqualities(equalities),
+		makeEQMapFromEqualities(equalities),
+		equalities,
+		foldTypeArgs(s),
+		foldTypeArgs(t),
+		c.copy(),
+	}
+}
+
+/* The unification handles type arguments as terms: do the same all along the equality reasoning */
+func foldTypeArgs(t AST.Term) AST.Term {
+	return Unif.MakerTermForm(t.Copy()).GetTerm()
 }
 
 /* Take a list of equalities and build the corresponding code tree */
@@ -148,8 +164,8 @@ func makeEQMapFromEqualities(eq Equalities) map[string]Lib.List[AST.Term] {
 	map_res := make(map[string]Lib.List[AST.Term])
 
 	for _, e := range eq {
-		key1 := e.GetT1().ToString()
-		key2 := e.GetT2().ToString()
+		key1 := termKey(e.GetT1())
+		key2 := termKey(e.GetT2())
 
 		if _, found := map_res[key1]; !found {
 			map_res[key1] = Lib.NewList[AST.Term]()
diff --git a/src/Mods/equality/bse/equality_rules_try_apply.go b/src/Mods/equality/bse/equality_rules_try_apply.go
index cfc5a35..37da255 100644
--- a/src/Mods/equality/bse/equality_rules_try_apply.go
+++ b/src/Mods/equality/bse/equality_rules_try_apply.go
@@ -141,7 +141,7 @@ func connectLAndR(list_l_prime_l []eqStruct.TermPair, ep EqualityProblem, s AST.
 			}),
 		)
 
-		for _, r := range ep.getEMap()[l_prime_l_pair.GetT2().ToString()].GetSlice() {
+		for _, r := range ep.getEMap()[termKey(l_prime_l_pair.GetT2())].GetSlice() {
 			debug(
 				Lib.MkLazy(func() string {
 					return fmt.Sprintf(
diff --git a/src/Mods/equality/bse/equality_rules_utils.go b/src/Mods/equality/bse/equality_rules_utils.go
index 386b03b..cf8ec04 100644
--- a/src/Mods/equality/bse/equality_rules_utils.go
+++ b/src/Mods/equality/bse/equality_rules_utils.go
@@ -59,6 +59,22 @@ func makeAnswerEP(found bool, substs []Unif.Substitutions) answerEP {
 	return answerEP{Glob.GetGID(), found, substs}
 }
 
+/**
+* Key identifying a term in a map. Distinct metavariables may be printed the same way (e.g., when they come from
+* the same variable), hence the printed term can't be used to this end.
+**/
+func termKey(t AST.Term) string {
+	switch trm := t.(type) {
+	case AST.Meta:
+		return fmt.Sprintf("?%d", trm.GetIndex())
+	case AST.Fun:
+		args := Lib.ListMap(trm.GetTyArgs(), AST.TyToTerm)
+		args.Append(trm.GetArgs().GetSlice()...)
+		return fmt.Sprintf("%d(%s)", trm.GetID().GetIndex(), args.ToString(termKey))
+	}
+	return t.ToString()
+}
+
 /**
 * check if the search should stop, ie if s = t
 **/
-- 
2.43.0


From e640220cbc1554444a146eb8e49d65fe4045d529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:17 +0000
Subject: [PATCH 07/37] fix: all Skolem types were the same type constant
 (unsound)

---
 src/Core/skolemisation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Core/skolemisation.go b/src/Core/skolemisation.go
index e894780..2524988 100644
--- a/src/Core/skolemisation.go
+++ b/src/Core/skolemisation.go
@@ -128,7 +128,7 @@ func realSkolemize(
 	var res AST.Form
 
 	if AST.IsTType(x.GetTy()) {
-		id := AST.MakerId("skoTy")
+		id := AST.MakerNewId("skoTy")
 		id = AST.MakerId(fmt.Sprintf("skoTy@%d", id.GetIndex()))
 		res = deltaForm.SubstTy(x.ToTyBoundVar(), AST.MkTyConst(id.ToString()))
 	} else {
-- 
2.43.0


From 5c65a30b6e2f018191831a7638ed3b8cb4293bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:17 +0000
Subject: [PATCH 08/37] fix: typing: constants of a variable type, and type
 metavariables in argument types, raised an anomaly

---
 src/AST/ty-syntax.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/AST/ty-syntax.go b/src/AST/ty-syntax.go
index 5ea889c..be51689 100644
--- a/src/AST/ty-syntax.go
+++ b/src/AST/ty-syntax.go
@@ -421,11 +421,11 @@ func instantiateTyRec(ty, source Ty, instance map[string]Ty) Ty {
 
 func GetArgsTy(ty Ty) Lib.List[Ty] {
 	switch rty := ty.(type) {
-	case TyConstr:
+	case TyConstr, TyBound, TyMeta:
 		return Lib.NewList[Ty]()
 	case TyFunc:
 		switch nty := rty.in.(type) {
-		case TyBound, TyConstr:
+		case TyBound, TyMeta, TyConstr:
 			return Lib.MkListV(rty.in)
 		case TyProd:
 			return nty.args
@@ -440,7 +440,7 @@ func GetArgsTy(ty Ty) Lib.List[Ty] {
 
 func GetOutTy(ty Ty) Ty {
 	switch rty := ty.(type) {
-	case TyConstr:
+	case TyConstr, TyBound, TyMeta:
 		return tType
 	case TyFunc:
 		return rty.out
-- 
2.43.0


From 65935ae833355feee1f8859fbbb9417d059bc25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:17 +0000
Subject: [PATCH 09/37] fix: elaboration: a quantified variable's type leaked
 out of its quantifier

---
 src/Engine/syntax-translation.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/Engine/syntax-translation.go b/src/Engine/syntax-translation.go
index 404aab9..efab23c 100644
--- a/src/Engine/syntax-translation.go
+++ b/src/Engine/syntax-translation.go
@@ -235,7 +235,7 @@ func elaborateForm(con Context, f, source_form Parser.PForm) (Context, AST.Form,
 			if !vars.Empty() {
 				form = AST.MakerAll(vars, form)
 			}
-			return new_con, form, b
+			return leaveScope(con, new_con, actualVars.Len()), form, b
 
 		case Parser.PQuantEx:
 			if vars.Any(func(v AST.TypedVar) bool { return AST.IsTType(v.GetTy()) }) {
@@ -254,7 +254,7 @@ func elaborateForm(con Context, f, source_form Parser.PForm) (Context, AST.Form,
 			if !vars.Empty() {
 				form = AST.MakerEx(vars, form)
 			}
-			return new_con, form, b
+			return leaveScope(con, new_con, actualVars.Len()), form, b
 		}
 	}
 	Glob.Anomaly(
@@ -264,6 +264,13 @@ func elaborateForm(con Context, f, source_form Parser.PForm) (Context, AST.Form,
 	return con, nil, false
 }
 
+// Removes the variables bound by a quantifier from the context [inner] obtained under it, but keeps what has been
+// found there about defined symbols.
+func leaveScope(outer, inner Context, bound_vars int) Context {
+	con := append(Context{}, outer...)
+	return append(con, inner[len(outer)+bound_vars:]...)
+}
+
 func maybeFlattenOr(con Context, f Parser.PBin, source_form Parser.PForm) (Context, AST.Form, bool) {
 	return maybeFlattenBin(
 		con, f, source_form,
-- 
2.43.0


From 7f43866848242b7e59f04fe4fa75e32a440bc977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:09 +0000
Subject: [PATCH 10/37] fix: substituting a metavariable changed the
 conjunctions and disjunctions of its argument in place (unsound with -dmt)

---
 src/AST/form-list.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/AST/form-list.go b/src/AST/form-list.go
index 4472f74..af3a25b 100644
--- a/src/AST/form-list.go
+++ b/src/AST/form-list.go
@@ -42,10 +42,11 @@ import (
 
 // ex-name: ReplaceMetaByTerm
 func LsSubstByTerm(formulas Lib.List[Form], meta Meta, term Term) Lib.List[Form] {
+	substituted := Lib.MkList[Form](formulas.Len())
 	for i, f := range formulas.GetSlice() {
-		formulas.Upd(i, f.ReplaceMetaByTerm(meta, term))
+		substituted.Upd(i, f.ReplaceMetaByTerm(meta, term))
 	}
-	return formulas
+	return substituted
 }
 
 func FlattenAnd(formulas Lib.List[Form]) Lib.List[Form] {
-- 
2.43.0


From 9f8ddc273a58060fd537555678ae9b42994d6465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:48 +0000
Subject: [PATCH 11/37] fix: sateq: nil dereference when propagating congruence
 merged the class itself

---
 src/Mods/equality/sateq/problem.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Mods/equality/sateq/problem.go b/src/Mods/equality/sateq/problem.go
index 41af7c4..016ce41 100644
--- a/src/Mods/equality/sateq/problem.go
+++ b/src/Mods/equality/sateq/problem.go
@@ -174,10 +174,10 @@ func (problem *Problem) mergeEquivalenceClasses(ec1, ec2 *eqClass) {
 	delete(problem.partitionIndex, ecDeleted)
 	delete(problem.supertermIndex, ecDeleted)
 
-	// propagate congruence
+	// propagate congruence (which may merge ecMerged itself into another class)
 	for _, t3 := range problem.supertermIndex[ecMerged].Slice() {
 		// !t3.isMeta
-		for _, t4 := range problem.supertermIndex[ecMerged].Slice() {
+		for _, t4 := range problem.supertermIndex[ecMerged.representative()].Slice() {
 			ec3 := t3.eqClass
 			ec4 := t4.eqClass
 			if !ec3.congruent(ec4) && t3.congruent(t4) {
-- 
2.43.0


From fd80ee712b094b7ff28dbe0bb9f7a1288a0131e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:48 +0000
Subject: [PATCH 12/37] fix: a metavariable did not unify with itself when
 closing on an inequality (? [X]: X = X was not proved)

---
 src/Unif/substitutions_tree.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Unif/substitutions_tree.go b/src/Unif/substitutions_tree.go
index ddb8c39..aa07a85 100644
--- a/src/Unif/substitutions_tree.go
+++ b/src/Unif/substitutions_tree.go
@@ -187,6 +187,8 @@ func AddUnification(term1, term2 AST.Term, subst Substitutions) Substitutions {
 		}
 	} else {
 		switch {
+		case term1.Equals(term2):
+			return subst
 		case term1.IsMeta():
 			subst.Set(term1.ToMeta(), term2)
 			EliminateMeta(&subst)
-- 
2.43.0


From 66796ebb9a160b0e68c5cb2397c63e497a13f43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:01 +0000
Subject: [PATCH 13/37] fix: dmt: literals that could not be rewritten were
 dropped when a later literal was (p(a) not proved from q(a) and p(X) <=>
 (q(X) | r(X)))

---
 src/Search/destructive.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Search/destructive.go b/src/Search/destructive.go
index 1ef43a2..e5d5f55 100644
--- a/src/Search/destructive.go
+++ b/src/Search/destructive.go
@@ -956,6 +956,7 @@ func (ds *destructiveSearch) manageRewriteRules(fatherId uint64, state State, c
 				originalNodeId)
 		}))
 	remainingAtomics := newAtomics.Copy()
+	unrewritableAtomics := Core.MakeEmptyFormAndTermsList()
 
 	// For each atomic
 	for len(remainingAtomics) > 0 {
@@ -972,10 +973,13 @@ func (ds *destructiveSearch) manageRewriteRules(fatherId uint64, state State, c
 		// If f is in atomic, that means we couldn't rewrite it, so it's useless to check
 		if !state.GetAtomic().Contains(f) && Glob.IsLoaded("dmt") {
 			if rewritten, err := dmt.Rewrite(f.GetForm()); err == nil {
-				shouldReturn := ds.tryRewrite(rewritten, f, &state, remainingAtomics, fatherId, c, currentNodeId, originalNodeId, metaToReintroduce)
+				// The atomics that cannot be rewritten are kept with those that remain
+				otherAtomics := append(unrewritableAtomics.Copy(), remainingAtomics...)
+				shouldReturn := ds.tryRewrite(rewritten, f, &state, otherAtomics, fatherId, c, currentNodeId, originalNodeId, metaToReintroduce)
 				if shouldReturn {
 					return
 				}
+				unrewritableAtomics = append(unrewritableAtomics, f)
 			} else {
 				Glob.Anomaly("DMT", err.Error())
 			}
-- 
2.43.0


From fbafe89182828ed971099909557fb82725ba9068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:05 +0000
Subject: [PATCH 14/37] fix: dmt: trying another rewrite rule crashed (unknown
 child, leftover substitution)

---
 src/Search/child_management.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Search/child_management.go b/src/Search/child_management.go
index 90afaee..ba6730c 100644
--- a/src/Search/child_management.go
+++ b/src/Search/child_management.go
@@ -338,12 +338,17 @@ func (ds *destructiveSearch) manageBacktrackForDMT(args wcdArgs) {
 	args.st.SetCurrentProofRuleName("Rewrite")
 	args.st.SetCurrentProofIdDMT(nextSaF.GetId_rewrite())
 
+	// A rewriting without substitution has nothing to pass to the child (see tryRewrite).
+	if nextSaF.GetSaf().GetSubst().Empty() {
+		nextSaF = Core.MakeEmptyIntSubstAndFormAndTerms()
+	}
+
 	// The last formula of getLF is the previous formula choosen among rewritten. So, discard it and add the new one
 	args.st.SetLF(append(args.st.GetLF()[0:len(args.st.GetLF())-1].Copy(), nextForm))
 
 	copiedState := args.st.Copy()
 	communicationChild := Communication{make(chan bool), make(chan Result)}
-	go ds.ProofSearch(Glob.GetGID(), copiedState, communicationChild, nextSaF.GetSaf().ToSubstAndForm(), childNode, args.originalNodeId, args.toReintroduce, false)
+	go ds.ProofSearch(Glob.GetGID(), copiedState, communicationChild, nextSaF.GetSaf().ToSubstAndForm(), childNode, childNode, args.toReintroduce, false)
 	debug(Lib.MkLazy(func() string { return "GO !" }))
 	Glob.IncrGoRoutine(1)
 
-- 
2.43.0


From acaddceabae3a36b58520d0417e9ee3f7243b14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:46 +0000
Subject: [PATCH 15/37] fix: with three branches or more, a substitution that
 two of them have in common was taken for one of all (unsound with -flatten)

---
 src/Search/destructive.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/Search/destructive.go b/src/Search/destructive.go
index e5d5f55..7cf1261 100644
--- a/src/Search/destructive.go
+++ b/src/Search/destructive.go
@@ -776,15 +776,18 @@ func (ds *destructiveSearch) selectChildren(father Communication, children *[]Co
 						// Children sent the same substitution, eventually with new forms
 						new_current_subst = current_subst.AddFormulas(res.subst_list_for_father[0].GetForm())
 					} else {
-						// Reset at each step
+						// Keep the substitutions common to all the children which have returned some so far
+						previous_common_substs := common_substs
 						common_substs = []Core.SubstAndForm{}
-
-						// Check if there is common substitutions
 						for _, current_subst_from_children := range res.subst_list_for_father {
-							for i := range result_subst {
+							if cpt_children_returning_subst == 0 {
+								common_substs = append(common_substs, current_subst_from_children)
+								continue
+							}
+							for _, common := range previous_common_substs {
 								if Lib.ListEquals(
 									current_subst_from_children.GetSubst(),
-									result_subst[i].GetSubst(),
+									common.GetSubst(),
 								) {
 									debug(
 										Lib.MkLazy(func() string {
@@ -794,7 +797,7 @@ func (ds *destructiveSearch) selectChildren(father Communication, children *[]Co
 											)
 										}),
 									)
-									common_substs = append(common_substs, result_subst[i].AddFormulas(current_subst_from_children.GetForm()))
+									common_substs = append(common_substs, common.AddFormulas(current_subst_from_children.GetForm()))
 								}
 							}
 						}
-- 
2.43.0


From 008f6c2c584c8c623b83142ed03fc157ccd44e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:21 +0000
Subject: [PATCH 16/37] fix: unification lost a binding when a metavariable of
 the stored literal got two values, so branches were closed with a
 substitution that does not unify (a satisfiable problem was declared a
 theorem)

---
 src/Unif/code-trees.go         |   9 --
 src/Unif/parsing.go            |  15 ----
 src/Unif/substitutions_tree.go | 156 ++++++++++++++++-----------------
 3 files changed, 75 insertions(+), 105 deletions(-)

diff --git a/src/Unif/code-trees.go b/src/Unif/code-trees.go
index 6beb337..8f92ac3 100644
--- a/src/Unif/code-trees.go
+++ b/src/Unif/code-trees.go
@@ -138,15 +138,6 @@ func makeCodeTree(forms Lib.List[AST.Form]) *Node {
 	return root
 }
 
-/* Makes a CodeTree from one sequence of instructions. */
-func makeBranch(sequence Sequence) *Node {
-	root := makeNode(nil)
-
-	root.insert(sequence)
-
-	return root
-}
-
 /* Makes a Node from an instruction */
 func makeNode(block CodeBlock) *Node {
 	n := new(Node)
diff --git a/src/Unif/parsing.go b/src/Unif/parsing.go
index 13b120d..7075f50 100644
--- a/src/Unif/parsing.go
+++ b/src/Unif/parsing.go
@@ -242,18 +242,3 @@ func parseTerms(
 	}
 	return subst
 }
-
-func ParseTerm(term AST.Term) Sequence {
-	var instructions Sequence
-	varCount := 0
-	postCount := 0
-	parseTerms(
-		Lib.MkListV(term.Copy()),
-		&instructions,
-		Lib.NewList[AST.Meta](),
-		&varCount,
-		&postCount,
-	)
-	instructions.formula = MakerTermForm(term)
-	return instructions
-}
diff --git a/src/Unif/substitutions_tree.go b/src/Unif/substitutions_tree.go
index aa07a85..b01a5e2 100644
--- a/src/Unif/substitutions_tree.go
+++ b/src/Unif/substitutions_tree.go
@@ -87,20 +87,9 @@ func computeSubstitutions(subs []SubstPair, metasToSubs Substitutions, form AST.
 		)
 
 		if !currentMeta.Equals(currentValue) {
-			// Si current_meta a déjà une association dans metas
-			metaGet, index := metasToSubs.Get(currentMeta)
-			if HasSubst(metasToSubs, currentMeta) && (index != -1) && !currentValue.Equals(metaGet) {
-				// On cherche a unifier les deux valeurs
-				treeSubs.Set(currentMeta, currentValue)
-				new_unif := AddUnification(currentValue.Copy(), metaGet.Copy(), treeSubs.Copy())
-				if new_unif.Equals(Failure()) {
-					return Failure()
-				} else {
-					treeSubs = new_unif
-					metasToSubs.Remove(index) // Remove from meta
-				}
-			} else { // Ne pas ajouter la susbtitution égalité
-				treeSubs.Set(currentMeta, currentValue)
+			treeSubs = AddUnification(currentMeta, currentValue.Copy(), treeSubs.Copy())
+			if treeSubs.Equals(Failure()) {
+				return Failure()
 			}
 		}
 	}
@@ -172,83 +161,88 @@ func AddUnification(term1, term2 AST.Term, subst Substitutions) Substitutions {
 				subst.ToString())
 		}),
 	)
-	// unify with ct only if the term already has an unification or if there is 2 fun. Just add it and eliminate otherwise.
-	t1v, _ := subst.Get(term1.ToMeta())
-	t2v, _ := subst.Get(term2.ToMeta())
-	if (term1.IsMeta() && HasSubst(subst, term1.ToMeta()) && !t1v.Equals(term2)) ||
-		(term2.IsMeta() && HasSubst(subst, term2.ToMeta()) && !t2v.Equals(term1)) ||
-		(term1.IsFun() && term2.IsFun()) {
-		m := makeMachine()
-		m.meta = subst.Copy()
-		if m.addUnifications(term1, term2) == SUCCESS {
-			return m.meta
-		} else {
-			return Failure()
-		}
-	} else {
-		switch {
-		case term1.Equals(term2):
-			return subst
-		case term1.IsMeta():
-			subst.Set(term1.ToMeta(), term2)
-			EliminateMeta(&subst)
-			Eliminate(&subst)
-			return subst
-		case term2.IsMeta():
-			subst.Set(term2.ToMeta(), term1)
-			EliminateMeta(&subst)
-			Eliminate(&subst)
-			return subst
-		default:
-			return Failure()
-		}
+	if subst.Equals(Failure()) || !unifyTerms(term1, term2, &subst) {
+		return Failure()
 	}
+	EliminateMeta(&subst)
+	Eliminate(&subst)
+	return subst
 }
 
-/* Adds the unifications found to the meta substitutions from running the algorithm on term1 and term2. */
-func (m *Machine) addUnifications(term1, term2 AST.Term) Status {
-	debug(
-		Lib.MkLazy(func() string {
-			return fmt.Sprintf(
-				"add unification : %v and %v",
-				term1.ToString(),
-				term2.ToString())
-		}),
-	)
-	meta := tryUnification(term1.Copy(), term2.Copy(), m.meta.Copy()) // Return empty or an array of 1 matching substitution, which is m.meta improved wit (term1, term2)
+/* Solves the equation between the two terms, where the metavariables already have the values given by subst. */
+func unifyTerms(term1, term2 AST.Term, subst *Substitutions) bool {
+	term1, term2 = followMeta(term1, *subst), followMeta(term2, *subst)
 
-	if len(meta) == 0 {
-		return Status(ERROR)
-	} else {
-		m.meta = meta[0].GetSubst()
-		EliminateMeta(&m.meta)
-		Eliminate(&m.meta)
+	switch {
+	case term1.Equals(term2):
+		return true
+	case term1.IsMeta():
+		return bindMeta(term1.ToMeta(), term2, subst)
+	case term2.IsMeta():
+		return bindMeta(term2.ToMeta(), term1, subst)
 	}
 
-	return Status(SUCCESS)
-}
+	fun1, is_fun1 := term1.(AST.Fun)
+	fun2, is_fun2 := term2.(AST.Fun)
+	if !is_fun1 || !is_fun2 || fun1.GetIndex() != fun2.GetIndex() {
+		return false
+	}
 
-/* Tries to unify term1 with term2, depending on the substitutions already found by the parent unification process. */
-func tryUnification(term1, term2 AST.Term, meta Substitutions) []MatchingSubstitutions {
-	debug(
-		Lib.MkLazy(func() string {
-			return fmt.Sprintf(
-				"Try unification : %v and %v",
-				term1.ToString(),
-				term2.ToString())
-		}),
-	)
 	// The type arguments are unified as (the first) arguments of a function, on both sides
-	terms := getFunctionalArguments(Lib.NewList[AST.Ty](), Lib.MkListV(term1, term2))
+	args1, args2 := Lib.ListMap(fun1.GetTyArgs(), AST.TyToTerm), Lib.ListMap(fun2.GetTyArgs(), AST.TyToTerm)
+	args1.Append(fun1.GetArgs().GetSlice()...)
+	args2.Append(fun2.GetArgs().GetSlice()...)
+	if args1.Len() != args2.Len() {
+		return false
+	}
+	for i, arg := range args1.GetSlice() {
+		if !unifyTerms(arg, args2.At(i), subst) {
+			return false
+		}
+	}
+	return true
+}
+
+/* While term is a metavariable that has a value in subst, replaces it by its value. */
+func followMeta(term AST.Term, subst Substitutions) AST.Term {
+	for range subst {
+		if !term.IsMeta() {
+			break
+		}
+		value, index := subst.Get(term.ToMeta())
+		if index == -1 {
+			break
+		}
+		term = value
+	}
+	return term
+}
 
-	aux := makeMachine()
-	aux.terms = Lib.MkListV(terms.At(1))
-	aux.meta = meta
+/* Gives a value to a metavariable that has none. */
+func bindMeta(meta AST.Meta, value AST.Term, subst *Substitutions) bool {
+	if occursIn(meta, value, *subst) {
+		return false
+	}
+	*subst = append(*subst, MakeSubstitution(meta, value))
+	return true
+}
 
-	// add begin at the start and end at the end !
-	tree := makeBranch(ParseTerm(terms.At(0)))
-	res := aux.unifyAux(*tree)
-	return res
+/* Checks if the metavariable occurs in the term, once the metavariables of the term are replaced by their values. */
+func occursIn(meta AST.Meta, term AST.Term, subst Substitutions) bool {
+	term = followMeta(term, subst)
+	if fun, is_fun := term.(AST.Fun); is_fun {
+		for _, ty := range fun.GetTyArgs().GetSlice() {
+			if occursIn(meta, AST.TyToTerm(ty), subst) {
+				return true
+			}
+		}
+		for _, arg := range fun.GetArgs().GetSlice() {
+			if occursIn(meta, arg, subst) {
+				return true
+			}
+		}
+	}
+	return meta.Equals(term)
 }
 
 /* Merge two valid substitutions */
-- 
2.43.0


From a00f883634a5c943380c0bc9f4c2000ec0e1b40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:25 +0000
Subject: [PATCH 17/37] fix: applying a substitution replaced only the first
 occurrence of a metavariable inside a function's arguments (g(X,X) became
 g(a,X): anomaly, wrong closures)

---
 src/AST/formsDef.go              | 2 +-
 src/AST/term-list.go             | 2 +-
 src/AST/term.go                  | 8 ++++++++
 src/Core/substitutions_search.go | 2 +-
 4 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/AST/formsDef.go b/src/AST/formsDef.go
index ed4183d..77164dc 100644
--- a/src/AST/formsDef.go
+++ b/src/AST/formsDef.go
@@ -990,7 +990,7 @@ func (p Pred) ReplaceMetaByTerm(meta Meta, term Term) Form {
 		p.GetIndex(),
 		p.id,
 		p.tys,
-		Lib.ListMap(p.args, func(t Term) Term { return t.ReplaceSubTermBy(meta, term) }),
+		Lib.ListMap(p.args, func(t Term) Term { return ReplaceAllSubTerm(t, meta, term) }),
 	)
 }
 
diff --git a/src/AST/term-list.go b/src/AST/term-list.go
index ab4d882..b9a3a42 100644
--- a/src/AST/term-list.go
+++ b/src/AST/term-list.go
@@ -93,7 +93,7 @@ func ReplaceOccurrence(
 
 	for i := range tl.GetSlice() {
 		// FIXME: should [res.At(i)] be copied? I don't think so but we'll see.
-		trm := tl.At(i).ReplaceSubTermBy(replaceThis, withThis)
+		trm := ReplaceAllSubTerm(tl.At(i), replaceThis, withThis)
 		if !trm.Equals(tl.At(i)) {
 			hasUpdated = true
 		}
diff --git a/src/AST/term.go b/src/AST/term.go
index bfe5f5f..44c241b 100644
--- a/src/AST/term.go
+++ b/src/AST/term.go
@@ -81,6 +81,14 @@ func MakeFun(p Id, ty_args Lib.List[Ty], args Lib.List[Term], metas Lib.Set[Meta
 
 /*** Functions **/
 
+/* Replaces all the occurrences of a term in another (ReplaceSubTermBy replaces one) */
+func ReplaceAllSubTerm(t, oldTerm, newTerm Term) Term {
+	if f, is_fun := t.(Fun); is_fun {
+		return f.ReplaceAllSubTerm(oldTerm, newTerm)
+	}
+	return t.ReplaceSubTermBy(oldTerm, newTerm)
+}
+
 func TermEquals(x, y Term) bool {
 	return x.Equals(y)
 }
diff --git a/src/Core/substitutions_search.go b/src/Core/substitutions_search.go
index a12c709..63c8074 100644
--- a/src/Core/substitutions_search.go
+++ b/src/Core/substitutions_search.go
@@ -272,7 +272,7 @@ func ApplySubstitutionsOnTerm(substs Lib.List[Unif.MixedSubstitution], t AST.Ter
 			t = t.SubstTy(meta, ty)
 		case Lib.Right[Unif.TySubstitution, Unif.Substitution]:
 			meta, term := s.Val.Get()
-			t = t.ReplaceSubTermBy(meta, term)
+			t = AST.ReplaceAllSubTerm(t, meta, term)
 		}
 	}
 
-- 
2.43.0


From d1c8ae7c930027e480b1bba062984c0f269d4207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:26 +0000
Subject: [PATCH 18/37] fix: a substitution sent to the parent lost the
 equality of two of its metavariables bound to the same child metavariable
 (unsound)

---
 src/Core/substitutions_search.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Core/substitutions_search.go b/src/Core/substitutions_search.go
index 63c8074..01ce923 100644
--- a/src/Core/substitutions_search.go
+++ b/src/Core/substitutions_search.go
@@ -100,10 +100,11 @@ func RemoveElementWithoutMM(
 
 				switch typedTerm := term.(type) {
 				case AST.Meta:
-					if relevantMetas.Contains(meta) &&
-						relevantMetas.Contains(typedTerm) {
+					if relevantMetas.Contains(meta) {
 						subst_to_reorganize.Set(meta, typedTerm)
-						res.Set(meta, typedTerm)
+						if relevantMetas.Contains(typedTerm) {
+							res.Set(meta, typedTerm)
+						}
 					}
 
 				default:
-- 
2.43.0


From 7027622aabaa01db0674314ef1fca1ef0944501e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:53 +0000
Subject: [PATCH 19/37] fix: a file whose last line does not end with a newline
 was refused

---
 src/Parser/tptp_lex.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Parser/tptp_lex.go b/src/Parser/tptp_lex.go
index 8ed6630..5ed6f07 100644
--- a/src/Parser/tptp_lex.go
+++ b/src/Parser/tptp_lex.go
@@ -845,7 +845,8 @@ func ParseTPTPFile(filename string) ([]PStatement, int, bool) {
 		Glob.Fatal(parse_label, err.Error())
 	}
 
-	TPTPParse(&TPTPLex{s: string(data)})
+	// The last line of the file may not end with a newline
+	TPTPParse(&TPTPLex{s: string(data) + "\n"})
 
 	return statement, quantifiersCounter, containsEquality
 }
-- 
2.43.0


From c6b9d5a50f04be7db0e596a6d5d727b72d892771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:53 +0000
Subject: [PATCH 20/37] fix: a comment ended at a tab or a non-ASCII character,
 and the rest of the file was silently ignored

---
 src/Parser/tptp_lex.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/Parser/tptp_lex.go b/src/Parser/tptp_lex.go
index 5ed6f07..d7ffe3a 100644
--- a/src/Parser/tptp_lex.go
+++ b/src/Parser/tptp_lex.go
@@ -95,12 +95,14 @@ func (lexer TPTPLex) checkNext(c rune) bool {
 
 // <comment>              ::- <comment_line>|<comment_block>
 // <comment_line>         ::- [%]<printable_char>*
+// %----The use of . in <printable_char> does not exclude tabs or other characters:
+// %----a comment goes on until the end of its line.
 // <comment_block>        ::: [/][*]<not_star_slash>[*][*]*[/]
 // Returns false if the next char is EOF
 func (lexer *TPTPLex) filterComments() bool {
 	if lexer.c == '%' { // Comment line
 		lexer.advance()
-		for lexer.pos < len(lexer.s) && lexer.isPrintableChar() {
+		for lexer.pos < len(lexer.s) && lexer.c != '\n' && lexer.c != '\r' {
 			lexer.advance()
 		}
 		return lexer.pos < len(lexer.s)
@@ -140,14 +142,6 @@ func (lexer *TPTPLex) filterSpaces() bool {
 	return lexer.pos < len(lexer.s)
 }
 
-// <printable_char>       ::: .
-// %----<printable_char> is any printable ASCII character, codes 32 (space) to 126
-// %----(tilde). <printable_char> does not include tabs, newlines, bells, etc. The
-// %----use of . does not not exclude tab, so this is a bit loose.
-func (lexer *TPTPLex) isPrintableChar() bool {
-	return int(lexer.c) >= 32 && int(lexer.c) <= 126
-}
-
 // <not_star_slash>       ::: ([^*]*[*][*]*[^/*])*[^*]*
 func (lexer *TPTPLex) notStarSlash() bool {
 	return lexer.c != '*' || !lexer.checkAdvance('/')
@@ -825,6 +819,8 @@ func (lexer *TPTPLex) Lex(yylval *TPTPSymType) int {
 		return token
 	}
 
+	// [FAILURE_TOKEN] would be taken for the end of the file.
+	lexer.Error(fmt.Sprintf("Unexpected character %q", lexer.c))
 	return FAILURE_TOKEN
 }
 
-- 
2.43.0


From 23540db0bbd49a7c29a2002d64ebb07ad54fb8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:32 +0000
Subject: [PATCH 21/37] fix: a quantifier not followed by a space was refused

---
 src/Parser/tptp_lex.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/Parser/tptp_lex.go b/src/Parser/tptp_lex.go
index d7ffe3a..4a7628e 100644
--- a/src/Parser/tptp_lex.go
+++ b/src/Parser/tptp_lex.go
@@ -229,18 +229,14 @@ func (lexer *TPTPLex) isOperator() (int, bool) {
 			word += ">"
 			quantifiersCounter += 1
 		} else {
-			if lexer.pos >= len(lexer.s) || lexer.checkNext(' ') {
+			if lexer.pos >= len(lexer.s) || !lexer.checkNext('=') { // != is not an operator
 				quantifiersCounter += 1
 			} else {
 				return FAILURE_TOKEN, false
 			}
 		}
 	case '?':
-		if lexer.pos >= len(lexer.s) || lexer.checkNext(' ') {
-			quantifiersCounter += 1
-		} else {
-			return FAILURE_TOKEN, false
-		}
+		quantifiersCounter += 1
 	case '<':
 		if lexer.checkAdvance('=') { // <=> or <=
 			word += "="
-- 
2.43.0


From 9545e5731a47fe89203c80b6fa7a1b6061122d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:20 +0000
Subject: [PATCH 22/37] fix: the types declared in an included file were
 unknown to the including one, its formulas were not type-checked, a second
 conjecture in it was not noticed, and -l was overridden

---
 src/main.go | 88 ++++++++++++++++++++++++-----------------------------
 1 file changed, 39 insertions(+), 49 deletions(-)

diff --git a/src/main.go b/src/main.go
index 4f51ef7..5e8a2fd 100644
--- a/src/main.go
+++ b/src/main.go
@@ -143,7 +143,7 @@ func presearchLoader() (AST.Form, int) {
 		}),
 	)
 
-	statements, bound, containsEquality := Parser.ParseTPTPFile(problem)
+	statements, bound, containsEquality := parseWithIncludes(problem, path.Dir(problem))
 	actual_statements, is_typed_problem := Engine.ToInternalSyntax(statements)
 
 	debug(
@@ -157,12 +157,7 @@ func presearchLoader() (AST.Form, int) {
 		bound = Glob.GetLimit()
 	}
 
-	form, bound, contEq, is_typed_include := StatementListToFormula(
-		actual_statements,
-		bound,
-		path.Dir(problem),
-	)
-	containsEquality = containsEquality || contEq
+	form := StatementListToFormula(actual_statements)
 
 	if !containsEquality {
 		Glob.SetPlugin("equality", false)
@@ -173,7 +168,7 @@ func presearchLoader() (AST.Form, int) {
 		Glob.Fatal(main_label, "Problem not found")
 	}
 
-	if is_typed_problem || is_typed_include {
+	if is_typed_problem {
 		checkForTypedProof(form)
 	}
 
@@ -224,16 +219,40 @@ func initDebuggers() {
 	gs3.InitDebugger()
 }
 
+// Parses a file, and puts the statements of the files it includes in place of its include statements.
+func parseWithIncludes(filename string, dir string) ([]Parser.PStatement, int, bool) {
+	parsed, bound, containsEquality := Parser.ParseTPTPFile(filename)
+	statements := []Parser.PStatement{}
+
+	for _, statement := range parsed {
+		if statement.Role() != Parser.Include {
+			statements = append(statements, statement)
+			continue
+		}
+
+		realname, err := getFile(statement.Name(), dir)
+		debug(
+			Lib.MkLazy(func() string { return fmt.Sprintf("File to parse : %s\n", realname) }),
+		)
+
+		if err != nil {
+			Glob.Fatal(main_label, err.Error())
+		}
+
+		included, new_bound, contEq := parseWithIncludes(realname, path.Join(dir, path.Dir(statement.Name())))
+		bound = new_bound
+		containsEquality = containsEquality || contEq
+
+		statements = append(statements, included...)
+	}
+
+	return statements, bound, containsEquality
+}
+
 // FIXME: eventually, we would want to add an "interpretation" layer between elab and internal representation that does this
-func StatementListToFormula(
-	statements []Core.Statement,
-	old_bound int,
-	problemDir string,
-) (form AST.Form, bound int, containsEquality bool, is_typed_problem bool) {
+func StatementListToFormula(statements []Core.Statement) AST.Form {
 	and_list := Lib.NewList[AST.Form]()
-	is_typed_problem = false
 	negated_conjecture := Lib.MkNone[AST.Form]()
-	bound = old_bound
 
 	raise_on_multiple_conjectures := func() {
 		if _, is_some := negated_conjecture.(Lib.Some[AST.Form]); is_some {
@@ -243,35 +262,6 @@ func StatementListToFormula(
 
 	for _, statement := range statements {
 		switch statement.GetRole() {
-		case Core.Include:
-			file_name := statement.GetName()
-
-			realname, err := getFile(file_name, problemDir)
-			debug(
-				Lib.MkLazy(func() string { return fmt.Sprintf("File to parse : %s\n", realname) }),
-			)
-
-			if err != nil {
-				Glob.Fatal(main_label, err.Error())
-				return nil, -1, false, false
-			}
-
-			new_lstm, bound_tmp, contEq := Parser.ParseTPTPFile(realname)
-			actual_new_lstm, is_typed := Engine.ToInternalSyntax(new_lstm)
-			containsEquality = containsEquality || contEq
-			new_form_list, new_bound, contEq, is_typed := StatementListToFormula(
-				actual_new_lstm,
-				bound_tmp,
-				path.Join(problemDir, path.Dir(file_name)),
-			)
-			containsEquality = containsEquality || contEq
-			is_typed_problem = is_typed_problem || is_typed
-
-			if new_form_list != nil {
-				bound = new_bound
-				and_list.Append(new_form_list)
-			}
-
 		case Core.Axiom:
 			switch f := statement.GetForm().(type) {
 			case Lib.Some[AST.Form]:
@@ -317,22 +307,22 @@ func StatementListToFormula(
 	switch conj := negated_conjecture.(type) {
 	case Lib.None[AST.Form]:
 		if and_list.Empty() {
-			return nil, bound, containsEquality, is_typed_problem
+			return nil
 		} else {
-			return AST.MakerAnd(and_list), bound, containsEquality, is_typed_problem
+			return AST.MakerAnd(and_list)
 		}
 	case Lib.Some[AST.Form]:
 		if and_list.Empty() {
-			return conj.Val, bound, containsEquality, is_typed_problem
+			return conj.Val
 		} else {
 			flattened := AST.FlattenAnd(and_list)
 			flattened.Append(conj.Val)
-			return AST.MakerAnd(flattened), bound, containsEquality, is_typed_problem
+			return AST.MakerAnd(flattened)
 		}
 	}
 
 	Glob.Anomaly(main_label, "reached an unreachable state")
-	return nil, -1, false, false
+	return nil
 }
 
 func doAxiomStatement(andList Lib.List[AST.Form], f AST.Form) Lib.List[AST.Form] {
-- 
2.43.0


From 3050da7e22c752164bcf11d20b420d3570bbe485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:20 +0000
Subject: [PATCH 23/37] fix: the formula selection of an include was ignored,
 so formulas that are not part of the problem were used as axioms

---
 src/Parser/psyntax.go   |  9 +++++++++
 src/Parser/tptp_parse.y | 18 ++++++++++--------
 src/main.go             |  6 +++++-
 3 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/Parser/psyntax.go b/src/Parser/psyntax.go
index 24c4bf1..38e4649 100644
--- a/src/Parser/psyntax.go
+++ b/src/Parser/psyntax.go
@@ -35,6 +35,8 @@
 package Parser
 
 import (
+	"slices"
+
 	"github.com/GoelandProver/Goeland/Lib"
 )
 
@@ -362,6 +364,13 @@ type PStatement struct {
 	role PFormulaRole
 	form Lib.Option[PForm]
 	ty   Lib.Option[Lib.Pair[string, PType]]
+	// For an include: names of the selected statements, nil if they all are
+	selection []string
+}
+
+// Returns whether an include statement selects the statements called [name].
+func (s PStatement) Selects(name string) bool {
+	return s.selection == nil || slices.Contains(s.selection, name)
 }
 
 func (s PStatement) Name() string                                    { return s.name }
diff --git a/src/Parser/tptp_parse.y b/src/Parser/tptp_parse.y
index 17ec036..a66f0f2 100644
--- a/src/Parser/tptp_parse.y
+++ b/src/Parser/tptp_parse.y
@@ -56,6 +56,7 @@ type TypedVar = Lib.Pair[string, PAtomicType]
 // Semantic union
 %union{
     str string
+    names []string
     atom PAtomicType
     atoms []PAtomicType
     typ PType
@@ -99,6 +100,7 @@ type TypedVar = Lib.Pair[string, PAtomicType]
 %type <stm> tff_annotated
 %type <stm>  tptp_input annotated_formula include fof_annotated tpi_annotated
 %type <str>  name atomic_word atomic_defined_word file_name type_constant type_functor defined_type variable constant defined_constant functor defined_functor untyped_atom
+%type <names> formula_selection name_list
 %type <strty> number
 %type <fr>   formula_role 
 %type <form>  tpi_formula
@@ -139,15 +141,15 @@ annotated_formula: fof_annotated    { $$ = $1 }
   ;
 
 tff_annotated: TFF LEFT_PAREN name COMMA formula_role COMMA tff_formula annotations RIGHT_PAREN DOT
-  { $$ = PStatement{$3, $5, $7.form, $7.typ} }
+  { $$ = PStatement{$3, $5, $7.form, $7.typ, nil} }
   ;
 
 fof_annotated: FOF LEFT_PAREN name COMMA formula_role COMMA fof_formula annotations RIGHT_PAREN DOT
-  { $$ = PStatement{$3, $5, Lib.MkSome($7), Lib.MkNone[Lib.Pair[string, PType]]()} }
+  { $$ = PStatement{$3, $5, Lib.MkSome($7), Lib.MkNone[Lib.Pair[string, PType]](), nil} }
   ;
 
 tpi_annotated: TPI LEFT_PAREN name COMMA formula_role COMMA tpi_formula annotations RIGHT_PAREN DOT
-  { $$ = PStatement{$3, $5, Lib.MkSome($7), Lib.MkNone[Lib.Pair[string, PType]]()} }
+  { $$ = PStatement{$3, $5, Lib.MkSome($7), Lib.MkNone[Lib.Pair[string, PType]](), nil} }
   ;
 
 tpi_formula: fof_formula { $$ = $1 }
@@ -507,15 +509,15 @@ variable: UPPER_WORD { $$ = $1 }
   ;
 
 include: INCLUDE LEFT_PAREN file_name formula_selection RIGHT_PAREN DOT
-{ $$ = PStatement{$3, Include, Lib.MkNone[PForm](), Lib.MkNone[Lib.Pair[string, PType]]()} }
+{ $$ = PStatement{$3, Include, Lib.MkNone[PForm](), Lib.MkNone[Lib.Pair[string, PType]](), $4} }
   ;
 
-formula_selection:
-  | COMMA LEFT_BRACKET name_list RIGHT_BRACKET
+formula_selection:                              { $$ = nil }
+  | COMMA LEFT_BRACKET name_list RIGHT_BRACKET  { $$ = $3 }
   ;
 
-name_list: name
-  | name COMMA name_list
+name_list: name            { $$ = []string{$1} }
+  | name COMMA name_list   { $$ = append([]string{$1}, $3...) }
   ;
 
 source: general_term
diff --git a/src/main.go b/src/main.go
index 5e8a2fd..9aa5cfe 100644
--- a/src/main.go
+++ b/src/main.go
@@ -243,7 +243,11 @@ func parseWithIncludes(filename string, dir string) ([]Parser.PStatement, int, b
 		bound = new_bound
 		containsEquality = containsEquality || contEq
 
-		statements = append(statements, included...)
+		for _, included_statement := range included {
+			if statement.Selects(included_statement.Name()) {
+				statements = append(statements, included_statement)
+			}
+		}
 	}
 
 	return statements, bound, containsEquality
-- 
2.43.0


From f56be0d73328206c0f467f504788d8f4ce28015d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:30 +0000
Subject: [PATCH 24/37] fix: a variable with a type, X: t, was accepted as a
 term outside the quantifiers and the type ignored

---
 src/Parser/tptp_parse.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Parser/tptp_parse.y b/src/Parser/tptp_parse.y
index a66f0f2..2f1dfa5 100644
--- a/src/Parser/tptp_parse.y
+++ b/src/Parser/tptp_parse.y
@@ -286,7 +286,7 @@ tff_defined_plain_term: defined_constant { $$ = MkFunConst($1) }
   ;
 
 tff_term: tff_function_term { $$ = $1 }
-  | tff_variable { $$ = PVar{$1.Fst} }
+  | variable { $$ = PVar{$1} }
   ;
 
 tff_function_term: tff_plain_term { $$ = $1 }
-- 
2.43.0


From 0c43b9de29381377882b8bf9a0ec8b30d425a1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:13 +0000
Subject: [PATCH 25/37] fix: printing a proof closed by equality reasoning
 raised an anomaly

---
 src/AST/modular-printing.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/AST/modular-printing.go b/src/AST/modular-printing.go
index edef719..b2e8bb6 100644
--- a/src/AST/modular-printing.go
+++ b/src/AST/modular-printing.go
@@ -191,7 +191,8 @@ func (p Printer) OnFunctionalArgs(i Id, tys, con string, args Lib.List[Term]) st
 	// It'd maybe be useful to have an [Infix] generic action but I don't see how to do
 	// that for now.
 	infix := Lib.MkListV(Id_eq)
-	is_infix := Lib.ListMem(i, infix)
+	// The closure rule of equality reasoning applies to an equality without arguments, which is printed prefix.
+	is_infix := Lib.ListMem(i, infix) && !args.Empty()
 	arguments := Lib.ListToString(args, Lib.WithSep(p.StrConn(SepArgs)), Lib.WithEmpty(""))
 
 	if is_infix {
-- 
2.43.0


From 6a72822552aaef5882a1da0d8780c9c54c0d30da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:13 +0000
Subject: [PATCH 26/37] fix: a symbol used with different numbers of arguments
 was one symbol, so p => ?[X]: p(X) was a theorem, and other such problems
 panicked

---
 src/AST/maker.go                 | 36 ++++++++++++++++++++++++++++++++
 src/Engine/syntax-translation.go |  4 ++--
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/src/AST/maker.go b/src/AST/maker.go
index 427701e..5c24342 100644
--- a/src/AST/maker.go
+++ b/src/AST/maker.go
@@ -48,6 +48,17 @@ var cpt_term int
 var cpt_formula int
 
 var idTable map[string]int = make(map[string]int)
+
+// A symbol may be used with several numbers of arguments. The identifier of the name is the
+// identifier of the symbol for the number of arguments it is first used with.
+var firstArity map[string]int = make(map[string]int)
+var overloadedIds map[overloadedSymbol]Id = make(map[overloadedSymbol]Id)
+
+type overloadedSymbol struct {
+	name  string
+	arity int
+}
+
 var idVar map[string]int = make(map[string]int)
 var occurenceMeta map[string]int = make(map[string]int)
 var lock_term sync.Mutex
@@ -77,6 +88,8 @@ func Reset() {
 	cpt_term = 0
 	cpt_formula = 0
 	idTable = map[string]int{}
+	firstArity = map[string]int{}
+	overloadedIds = map[overloadedSymbol]Id{}
 	idVar = map[string]int{}
 	ResetMeta()
 }
@@ -98,6 +111,29 @@ func MakerId(s string) Id {
 	}
 }
 
+/* ID maker for a symbol with arguments: the same name with another number of arguments is another symbol. */
+func MakerSymbolId(s string, arity int) Id {
+	lock_term.Lock()
+	first, ok := firstArity[s]
+	if !ok {
+		firstArity[s] = arity
+	}
+	if !ok || first == arity {
+		lock_term.Unlock()
+		return MakerId(s)
+	}
+	defer lock_term.Unlock()
+
+	symbol := overloadedSymbol{s, arity}
+	id, ok := overloadedIds[symbol]
+	if !ok {
+		id = MakeId(cpt_term, s)
+		overloadedIds[symbol] = id
+		cpt_term += 1
+	}
+	return id
+}
+
 func MakerNewId(s string) Id {
 	lock_term.Lock()
 	idTable[s] = cpt_term
diff --git a/src/Engine/syntax-translation.go b/src/Engine/syntax-translation.go
index efab23c..535c0c1 100644
--- a/src/Engine/syntax-translation.go
+++ b/src/Engine/syntax-translation.go
@@ -189,7 +189,7 @@ func elaborateForm(con Context, f, source_form Parser.PForm) (Context, AST.Form,
 		}
 
 		return con, AST.MakerPred(
-			AST.MakerId(pform.Symbol()),
+			AST.MakerSymbolId(pform.Symbol(), args.Len()),
 			Lib.ListMap(
 				typed_args,
 				func(pty Parser.PType) AST.Ty {
@@ -361,7 +361,7 @@ func elaborateTerm(con Context, t, source_term Parser.PTerm) (Context, AST.Term,
 		}
 
 		fun := AST.MakerFun(
-			AST.MakerId(pterm.Symbol()),
+			AST.MakerSymbolId(pterm.Symbol(), args.Len()),
 			Lib.ListMap(
 				typed_args,
 				func(pty Parser.PType) AST.Ty {
-- 
2.43.0


From f208ede35cff53dad988ac0fd739bb777981b051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:13 +0000
Subject: [PATCH 27/37] fix: certified proofs crashed on quantified variables
 that do not occur, and weakened a hypothesis twice

---
 src/Mods/gs3/proof.go | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/Mods/gs3/proof.go b/src/Mods/gs3/proof.go
index 6f534e4..a0e4e48 100644
--- a/src/Mods/gs3/proof.go
+++ b/src/Mods/gs3/proof.go
@@ -229,7 +229,10 @@ func (gs *GS3Proof) makeProofOneStep(proofStep Search.ProofStruct, parent *GS3Se
 
 	// If the length is superior, then it's a branching rule and it needs to be taken care of in makeProof.
 	if IsAlphaRule(rule) || IsGammaRule(rule) || IsDeltaRule(rule) || rule == REWRITE {
-		gs.branchForms.Append(forms[0].GetSlice()...)
+		// Applying a delta-rule has already put its result in the branch.
+		if !IsDeltaRule(rule) || !Lib.ListMem(form, gs.branchForms) {
+			gs.branchForms.Append(forms[0].GetSlice()...)
+		}
 		// If rule is rewrite: do not weaken the base form, as it is important to get when applying rules back.
 		// It may however induce bad weakenings.
 		// TODO: fix the bad weakenings in the sequent.
@@ -269,6 +272,11 @@ func (gs *GS3Proof) manageGammaStep(proofStep Search.ProofStruct, rule Rule, seq
 }
 
 func getDepFromTerm(term AST.Term) Lib.List[AST.Term] {
+	// The formula does not mention its variable: its instance depends on nothing.
+	if term == nil {
+		return Lib.NewList[AST.Term]()
+	}
+
 	if typedFun, ok := term.(AST.Fun); ok {
 		if strings.Contains(typedFun.GetID().GetName(), "sko") {
 			return Lib.MkListV[AST.Term](typedFun)
@@ -292,6 +300,21 @@ func (gs *GS3Proof) manageDeltaStep(proofStep Search.ProofStruct, rule Rule, par
 	resultForm := proofStep.GetResultFormulas()[0].GetForms().At(0)
 	termGenerated := manageDeltasSkolemisations(proofStep.GetFormula().GetForm(), resultForm)
 
+	// The formula does not mention its variable: no witness is needed, and nothing depends on it.
+	if termGenerated == nil {
+		previousRulesApplied := appcp(gs.rulesApplied)
+		deltaSeq := gs.applyDeltaRule(originForm, resultForm, rule, nil, proofStep.Node_id)
+		if parent.IsEmpty() {
+			*parent = *deltaSeq
+			deltaSeq = parent
+		} else if gs.lastNode != nil {
+			gs.lastNode.addChild(deltaSeq)
+		}
+		gs.lastNode = deltaSeq
+		gs.rulesApplied = previousRulesApplied
+		return resultForm
+	}
+
 	if Glob.IsPreInnerSko() && !gs.termHasBeenIntroducedByBranch(termGenerated, proofStep.Node_id) {
 		return resultForm
 	}
@@ -318,7 +341,6 @@ func (gs *GS3Proof) manageDeltaStep(proofStep Search.ProofStruct, rule Rule, par
 		}
 		previousRulesApplied = append(previousRulesApplied, Glob.MakePair(rule, makeProofStructFrom(originForm, resultForm, rule)))
 		gs.lastNode = deltaSeq
-		gs.branchForms.Append(resultForm)
 		subRoot, childrenIndex := gs.applyRulesBack(previousRulesApplied, rulesApplied, offsprings)
 		if subRoot != nil {
 			gs.lastNode.addChild(subRoot)
@@ -507,7 +529,9 @@ func (gs *GS3Proof) applyDeltaRule(form, result AST.Form, rule Rule, term AST.Te
 	seq.setFormsGenerated([]Lib.List[AST.Form]{Lib.MkListV(result)})
 
 	gs.branchForms.Append(result)
-	gs.deltaHisto = append(gs.deltaHisto, Glob.MakePair(term, Glob.MakePair(result, nodeId)))
+	if term != nil {
+		gs.deltaHisto = append(gs.deltaHisto, Glob.MakePair(term, Glob.MakePair(result, nodeId)))
+	}
 	gs.rulesApplied = append(gs.rulesApplied, Glob.MakePair(rule, makeProofStructFrom(form, result, rule)))
 
 	seq.proof = gs.Copy()
-- 
2.43.0


From f4055f6cae07da78fc9a27467f65bb2e9791c1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:19 +0000
Subject: [PATCH 28/37] fix: two branches Skolemising at the same time gave the
 same name to different symbols

---
 src/Core/Sko/inner-skolemization.go    |  7 ++++---
 src/Core/Sko/outer-skolemization.go    |  7 ++++---
 src/Core/Sko/preinner-skolemization.go | 12 +++++++-----
 3 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/Core/Sko/inner-skolemization.go b/src/Core/Sko/inner-skolemization.go
index 3db9f88..e4b1429 100644
--- a/src/Core/Sko/inner-skolemization.go
+++ b/src/Core/Sko/inner-skolemization.go
@@ -46,13 +46,14 @@ import (
 **/
 
 type InnerSkolemization struct {
-	existingSymbols Lib.Set[AST.Id]
+	existingSymbols *Lib.Set[AST.Id]
 	mu              *sync.Mutex
 }
 
 func MkInnerSkolemization() InnerSkolemization {
+	symbols := Lib.EmptySet[AST.Id]()
 	return InnerSkolemization{
-		existingSymbols: Lib.EmptySet[AST.Id](),
+		existingSymbols: &symbols,
 		mu:              &sync.Mutex{},
 	}
 }
@@ -63,7 +64,7 @@ func (sko InnerSkolemization) Skolemize(
 	_ Lib.Set[AST.Meta],
 ) (Skolemization, AST.Form) {
 	sko.mu.Lock()
-	symbol := genFreshSymbol(&sko.existingSymbols, x)
+	symbol := genFreshSymbol(sko.existingSymbols, x)
 	sko.mu.Unlock()
 
 	internalMetas := form.GetMetas().Elements()
diff --git a/src/Core/Sko/outer-skolemization.go b/src/Core/Sko/outer-skolemization.go
index 1cfa7fa..cfdc33f 100644
--- a/src/Core/Sko/outer-skolemization.go
+++ b/src/Core/Sko/outer-skolemization.go
@@ -46,13 +46,14 @@ import (
 **/
 
 type OuterSkolemization struct {
-	existingSymbols Lib.Set[AST.Id]
+	existingSymbols *Lib.Set[AST.Id]
 	mu              *sync.Mutex
 }
 
 func MkOuterSkolemization() OuterSkolemization {
+	symbols := Lib.EmptySet[AST.Id]()
 	return OuterSkolemization{
-		existingSymbols: Lib.EmptySet[AST.Id](),
+		existingSymbols: &symbols,
 		mu:              &sync.Mutex{},
 	}
 }
@@ -63,7 +64,7 @@ func (sko OuterSkolemization) Skolemize(
 	fvs Lib.Set[AST.Meta],
 ) (Skolemization, AST.Form) {
 	sko.mu.Lock()
-	symbol := genFreshSymbol(&sko.existingSymbols, x)
+	symbol := genFreshSymbol(sko.existingSymbols, x)
 	sko.mu.Unlock()
 
 	metas := fvs.Elements()
diff --git a/src/Core/Sko/preinner-skolemization.go b/src/Core/Sko/preinner-skolemization.go
index b81cd96..704b5b8 100644
--- a/src/Core/Sko/preinner-skolemization.go
+++ b/src/Core/Sko/preinner-skolemization.go
@@ -47,15 +47,17 @@ import (
 **/
 
 type PreInnerSkolemization struct {
-	existingSymbols Lib.Set[AST.Id]
-	linkedSymbols   Lib.List[Glob.Pair[AST.Form, AST.Id]]
+	existingSymbols *Lib.Set[AST.Id]
+	linkedSymbols   *Lib.List[Glob.Pair[AST.Form, AST.Id]]
 	mu              *sync.Mutex
 }
 
 func MkPreInnerSkolemization() PreInnerSkolemization {
+	symbols := Lib.EmptySet[AST.Id]()
+	links := Lib.NewList[Glob.Pair[AST.Form, AST.Id]]()
 	return PreInnerSkolemization{
-		existingSymbols: Lib.EmptySet[AST.Id](),
-		linkedSymbols:   Lib.NewList[Glob.Pair[AST.Form, AST.Id]](),
+		existingSymbols: &symbols,
+		linkedSymbols:   &links,
 		mu:              &sync.Mutex{},
 	}
 }
@@ -75,7 +77,7 @@ func (sko PreInnerSkolemization) Skolemize(
 	); ok {
 		symbol = val.Snd
 	} else {
-		symbol = genFreshSymbol(&sko.existingSymbols, x)
+		symbol = genFreshSymbol(sko.existingSymbols, x)
 		sko.linkedSymbols.Append(Glob.MakePair(realDelta, symbol))
 	}
 	sko.mu.Unlock()
-- 
2.43.0


From ba7c4ff528ff76b50c13d40150a5740f1909fda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:43 +0000
Subject: [PATCH 29/37] fix: the body of a quantifier was printed without
 parentheses around binary connectives, which TPTP reads as (! [X]: p) => q

---
 src/AST/quantifiers.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/AST/quantifiers.go b/src/AST/quantifiers.go
index a7e8a95..138af16 100644
--- a/src/AST/quantifiers.go
+++ b/src/AST/quantifiers.go
@@ -90,10 +90,19 @@ func (q quantifier) ToString() string {
 			}).ToString(printer.StrTyVar, Lib.WithSep(printer.StrConn(SepTyVars)), Lib.WithEmpty("")),
 		),
 		printer.StrConn(SepVarsForm),
-		printer.Str(q.subForm.ToString()),
+		printer.Str(q.subFormToString()),
 	)
 }
 
+// A quantifier binds tighter than the binary connectives: they have to be surrounded.
+func (q quantifier) subFormToString() string {
+	switch q.subForm.(type) {
+	case And, Or, Imp, Equ:
+		return printer.SurroundChild(q.subForm.ToString())
+	}
+	return q.subForm.ToString()
+}
+
 func (q quantifier) GetChildFormulas() Lib.List[Form] {
 	return Lib.MkListV(q.GetForm())
 }
-- 
2.43.0


From 18da284f5eceb0ef2417d91c5143a66f7f2df229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:45 +0000
Subject: [PATCH 30/37] fix: the TPTP output of a proof closed by equality
 reasoning was an anomaly

---
 src/Mods/tptp/proof.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Mods/tptp/proof.go b/src/Mods/tptp/proof.go
index 53a18f0..0f720eb 100644
--- a/src/Mods/tptp/proof.go
+++ b/src/Mods/tptp/proof.go
@@ -132,7 +132,11 @@ func makeStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], new_current_
 	next_child_weakened_id := -1
 
 	updateId(proof, new_current_id)
-	target := get(proof.GetTargetForm(), hypotheses)
+	target := -1
+	// A closure by equality reasoning does not point to a formula of the sequent.
+	if !(proof.Rule() == gs3.AX && isPredEqual(proof.GetTargetForm())) {
+		target = get(proof.GetTargetForm(), hypotheses)
+	}
 
 	switch proof.Rule() {
 
-- 
2.43.0


From 4b3291d51eaf4dcbd23dfbc6b216cc2bf92b9d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:05 +0000
Subject: [PATCH 31/37] fix: the TPTP output of a proof with weakenings
 crashed, referred to steps that do not exist and forgot nothing

---
 src/Mods/gs3/sequent.go |  5 ++++-
 src/Mods/tptp/proof.go  | 31 +++++++++++++++++++++----------
 2 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/Mods/gs3/sequent.go b/src/Mods/gs3/sequent.go
index 103ff7b..9120446 100644
--- a/src/Mods/gs3/sequent.go
+++ b/src/Mods/gs3/sequent.go
@@ -127,7 +127,10 @@ func (seq *GS3Sequent) GetResultFormulasOfChildren() []Lib.List[AST.Form] {
 	result := []Lib.List[AST.Form]{}
 
 	for i := range seq.children {
-		result = append(result, seq.formsGenerated[i])
+		// Weakenings do not generate formulas.
+		if i < len(seq.formsGenerated) {
+			result = append(result, seq.formsGenerated[i])
+		}
 	}
 
 	return result
diff --git a/src/Mods/tptp/proof.go b/src/Mods/tptp/proof.go
index 0f720eb..c88ac6f 100644
--- a/src/Mods/tptp/proof.go
+++ b/src/Mods/tptp/proof.go
@@ -91,14 +91,16 @@ func followProofSteps(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], new_
 	var childrenHypotheses []Lib.List[AST.Form]
 	if !proof.IsEmpty() {
 		resultingStringParent, childrenHypotheses, new_current_id = makeProofStep(proof, hypotheses, new_current_id)
+	} else {
+		// Nothing is printed for an empty node: its child takes its place.
+		updateId(proof, new_current_id)
+		new_current_id = proof.GetId()
 	}
 	for i, child := range proof.Children() {
 		if proof.IsEmpty() {
 			resultingString += followProofSteps(child, Lib.ListCpy(hypotheses), new_current_id) + "\n"
 		} else {
-			newHypotheses := Lib.ListCpy(hypotheses)
-			newHypotheses = Lib.ListAdd(newHypotheses, childrenHypotheses[i].GetSlice()...)
-			resultingString += followProofSteps(child, newHypotheses, new_current_id) + "\n"
+			resultingString += followProofSteps(child, Lib.ListCpy(childrenHypotheses[i]), new_current_id) + "\n"
 		}
 	}
 	return resultingString + resultingStringParent
@@ -133,8 +135,9 @@ func makeStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], new_current_
 
 	updateId(proof, new_current_id)
 	target := -1
-	// A closure by equality reasoning does not point to a formula of the sequent.
-	if !(proof.Rule() == gs3.AX && isPredEqual(proof.GetTargetForm())) {
+	// Neither a closure by equality reasoning nor the weakening of a term points to a formula of the sequent.
+	if !(proof.Rule() == gs3.AX && isPredEqual(proof.GetTargetForm())) &&
+		!(proof.Rule() == gs3.W && proof.TermGenerated() != nil) {
 		target = get(proof.GetTargetForm(), hypotheses)
 	}
 
@@ -196,7 +199,8 @@ func makeStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], new_current_
 	// Weakening rule
 	case gs3.W:
 		if proof.TermGenerated() != nil {
-			resultingString = fmt.Sprintf("leftWeaken %s", findInConstants(proof.TermGenerated()).ToString())
+			// A term is not part of a sequent: the child takes the place of this node.
+			next_child_weakened_id = proof.GetId()
 		} else {
 			resultingString, childrenHypotheses, next_child_weakened_id = weakenStep(proof, hypotheses, target, "leftWeaken")
 		}
@@ -309,10 +313,6 @@ func gammaStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], target int,
 func weakenStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], target int, format string) (string, []Lib.List[AST.Form], int) {
 	child_id := incrByOne(&id_proof_step, &mutex_proof_step)
 
-	if target != -1 {
-		hypotheses = hypotheses.RemoveAt(target)
-	}
-
 	resultingString := fmt.Sprintf("fof(%s%d, plain, [%s] --> [], inference(%s, [status(thm), %d], [%s%d])).",
 		prefix_step,
 		proof.GetId(),
@@ -322,6 +322,10 @@ func weakenStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], target int
 		prefix_step,
 		child_id)
 
+	if target != -1 {
+		hypotheses = hypotheses.RemoveAt(target)
+	}
+
 	return resultingString, []Lib.List[AST.Form]{hypotheses}, child_id
 }
 
@@ -640,6 +644,13 @@ func updateId(proof *gs3.GS3Sequent, i int) {
 
 func updateSkolemSymbol(old, new AST.Term, proof *gs3.GS3Sequent) *gs3.GS3Sequent {
 
+	if proof.IsEmpty() {
+		for _, child := range proof.Children() {
+			updateSkolemSymbol(old, new, child)
+		}
+		return proof
+	}
+
 	// Update Target Form
 	new_target_form, _ := proof.GetTargetForm().ReplaceTermByTerm(old, new)
 	proof.SetTargetForm(new_target_form)
-- 
2.43.0


From 06cf6c25eefaaffa16722b813762f255e3e64085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:22 +0000
Subject: [PATCH 32/37] fix: the TPTP output of a proof crashed on quantified
 variables that do not occur

---
 src/Mods/tptp/proof.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Mods/tptp/proof.go b/src/Mods/tptp/proof.go
index c88ac6f..94ab284 100644
--- a/src/Mods/tptp/proof.go
+++ b/src/Mods/tptp/proof.go
@@ -268,7 +268,10 @@ func deltaStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], target int,
 
 	new_term := createNewConstant(proof.TermGenerated())
 
-	proof = updateSkolemSymbol(proof.TermGenerated(), new_term, proof)
+	// No term is generated when the formula does not mention its variable.
+	if proof.TermGenerated() != nil {
+		proof = updateSkolemSymbol(proof.TermGenerated(), new_term, proof)
+	}
 
 	resultingString := fmt.Sprintf("fof(%s%d, plain, [%s] --> [], inference(%s, [status(thm), %d, '%s'], [%s])).",
 		prefix_step,
@@ -706,7 +709,7 @@ func findInConstants(term AST.Term) AST.Term {
 
 func getCreatedFromOriginal(term AST.Term) AST.Term {
 	for i, t := range original_term {
-		if t.Equals(term) {
+		if t != nil && t.Equals(term) {
 			return constant_created[i]
 		}
 	}
-- 
2.43.0


From 977e25cffd8ebd049663e0d81491181a4cca4a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:23 +0000
Subject: [PATCH 33/37] fix: the TPTP output of a proof closed by $false or
 ~$true was an anomaly

---
 src/Mods/tptp/proof.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/Mods/tptp/proof.go b/src/Mods/tptp/proof.go
index 94ab284..eca6d76 100644
--- a/src/Mods/tptp/proof.go
+++ b/src/Mods/tptp/proof.go
@@ -151,6 +151,8 @@ func makeStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], new_current_
 				Lib.ListToString(hypotheses, Lib.WithEmpty("")),
 				"congruence",
 				"")
+		} else if isFalse(proof.GetTargetForm()) {
+			resultingString = closeFalseStep(proof, hypotheses, target)
 		} else {
 			targetPos := findIndexPos(proof.GetTargetForm(), hypotheses, target)
 
@@ -212,6 +214,19 @@ func makeStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], new_current_
 	return resultingString + "\n", childrenHypotheses, next_child_weakened_id
 }
 
+func closeFalseStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], target int) string {
+	step := "fof(%s, plain, [%s] --> [%s], inference(%s, [status(thm), %d], [%s]))."
+	id := fmt.Sprintf("%s%d", prefix_step, proof.GetId())
+	forms := Lib.ListToString(hypotheses, Lib.WithEmpty(""))
+
+	if not, isNot := proof.GetTargetForm().(AST.Not); isNot {
+		top_id := id + "ext1"
+		return fmt.Sprintf(step, top_id, forms, not.GetForm().ToString(), "rightTrue", 0, "") + "\n\n" +
+			fmt.Sprintf(step, id, forms, "", "leftNot", target, top_id)
+	}
+	return fmt.Sprintf(step, id, forms, "", "leftFalse", target, "")
+}
+
 func alphaStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], target int, format string) (string, []Lib.List[AST.Form]) {
 
 	children_id := []int{}
@@ -630,6 +645,16 @@ func isPredEqual(f AST.Form) bool {
 	return false
 }
 
+// Checks whether a formula closes a sequent by itself, i.e., if it is $false or ~$true.
+func isFalse(f AST.Form) bool {
+	if not, isNot := f.(AST.Not); isNot {
+		_, isTop := not.GetForm().(AST.Top)
+		return isTop
+	}
+	_, isBot := f.(AST.Bot)
+	return isBot
+}
+
 func incrByOne(cpt *int, mutex *sync.Mutex) int {
 	res := -1
 	mutex.Lock()
-- 
2.43.0


From 7d1ae70f25727f4fb9d0b23bfa91403d197947cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:26 +0000
Subject: [PATCH 34/37] fix: the TPTP output of a proof named its witnesses
 like symbols of the problem (sko_0)

---
 src/Mods/tptp/proof.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/Mods/tptp/proof.go b/src/Mods/tptp/proof.go
index eca6d76..bb7789e 100644
--- a/src/Mods/tptp/proof.go
+++ b/src/Mods/tptp/proof.go
@@ -281,7 +281,7 @@ func deltaStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], target int,
 		c.SetId(new_id)
 	}
 
-	new_term := createNewConstant(proof.TermGenerated())
+	new_term := createNewConstant(proof.TermGenerated(), hypotheses)
 
 	// No term is generated when the formula does not mention its variable.
 	if proof.TermGenerated() != nil {
@@ -713,10 +713,15 @@ func updateSkolemSymbol(old, new AST.Term, proof *gs3.GS3Sequent) *gs3.GS3Sequen
 
 /*** Constant created Management ***/
 
-func createNewConstant(term AST.Term) AST.Term {
+func createNewConstant(term AST.Term, hypotheses Lib.List[AST.Form]) AST.Term {
 	mutex_constant.Lock()
 	new_id := len(constant_created)
 	new_term_name := fmt.Sprintf("%s%d", prefix_const, new_id)
+	// The symbols of the problem may have such a name.
+	for isUsed(new_term_name, hypotheses) {
+		new_id += 1
+		new_term_name = fmt.Sprintf("%s%d", prefix_const, new_id)
+	}
 	new_term := AST.MakerConst(AST.MakerNewId(new_term_name))
 	original_term = append(original_term, term)
 	constant_created = append(constant_created, new_term)
@@ -724,6 +729,23 @@ func createNewConstant(term AST.Term) AST.Term {
 	return new_term
 }
 
+// Checks whether a function symbol of the hypotheses or an already created constant has this name.
+func isUsed(name string, hypotheses Lib.List[AST.Form]) bool {
+	for _, t := range constant_created {
+		if t.ToString() == name {
+			return true
+		}
+	}
+	for _, f := range hypotheses.GetSlice() {
+		for _, t := range f.GetSubTerms().GetSlice() {
+			if fun, isFun := t.(AST.Fun); isFun && fun.GetID().GetName() == name {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 func findInConstants(term AST.Term) AST.Term {
 	if term == nil {
 		return dummyTerm
-- 
2.43.0


From 1cf70307cec1a652770acdf16b82369d0387032e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:27 +0000
Subject: [PATCH 35/37] fix: names in the TPTP output were not quoted when they
 need to be, and a free variable was named like a bound one (captured)

---
 src/Mods/tptp/output.go | 41 ++++++++++++++++++++++++++++++++++++++++-
 src/Mods/tptp/proof.go  |  3 ++-
 2 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/src/Mods/tptp/output.go b/src/Mods/tptp/output.go
index 586f951..4247af4 100644
--- a/src/Mods/tptp/output.go
+++ b/src/Mods/tptp/output.go
@@ -37,6 +37,9 @@
 package tptp
 
 import (
+	"fmt"
+	"strings"
+
 	"github.com/GoelandProver/Goeland/AST"
 	"github.com/GoelandProver/Goeland/Glob"
 	"github.com/GoelandProver/Goeland/Lib"
@@ -59,7 +62,7 @@ func MakeTptpOutput(prf []Search.ProofStruct, meta Lib.List[AST.Meta]) string {
 		return ""
 	}
 
-	// FIXME: set AST's printer to be the one of TPTP
+	AST.ComposePrinter(tptpPrinterAction())
 
 	if Glob.IsSCTPTPOutput() {
 		// FIXME: the one of TSTP here
@@ -70,6 +73,42 @@ func MakeTptpOutput(prf []Search.ProofStruct, meta Lib.List[AST.Meta]) string {
 	return MakeTptpProof(gs3.MakeGS3Proof(prf), meta)
 }
 
+// Names that aren't TPTP words are quoted, and metavariables are distinguished from the bound variables they come from.
+func tptpPrinterAction() AST.PrinterAction {
+	return AST.MkPrinterAction(
+		AST.PrinterIdentity,
+		func(i AST.Id) string {
+			if isTptpName(i.GetName()) {
+				return i.GetName()
+			}
+			return fmt.Sprintf("'%s'", i.GetName())
+		},
+		AST.PrinterIdentity2[int],
+		func(name string, index int) string { return fmt.Sprintf("%s_%d", name, index) },
+		AST.PrinterIdentity,
+		AST.PrinterIdentityPair[AST.Ty],
+	)
+}
+
+// Checks that a name is a word, a number, or a defined symbol of TPTP (or one that has already been made TPTP-compliant).
+func isTptpName(name string) bool {
+	if strings.HasPrefix(name, prefix_const) || name == dummyName || name == "" {
+		return true
+	}
+	switch c := name[0]; {
+	case strings.ContainsRune("'=+-", rune(c)) || '0' <= c && c <= '9':
+		return true
+	case c != '$' && (c < 'a' || 'z' < c):
+		return false
+	}
+	for _, c := range name[1:] {
+		if c != '_' && (c < '0' || '9' < c) && (c < 'a' || 'z' < c) && (c < 'A' || 'Z' < c) {
+			return false
+		}
+	}
+	return true
+}
+
 var MakeTptpProof = func(proof *gs3.GS3Sequent, meta Lib.List[AST.Meta]) string {
 	proofString := makeTptpProofFromGS3(proof)
 	return proofString
diff --git a/src/Mods/tptp/proof.go b/src/Mods/tptp/proof.go
index bb7789e..b7ea1e7 100644
--- a/src/Mods/tptp/proof.go
+++ b/src/Mods/tptp/proof.go
@@ -60,7 +60,8 @@ var constant_created = make([]AST.Term, 0)
 var prefix_step = "f"
 var prefix_axiom_cut = "ac"
 var prefix_const = "sko_"
-var dummyTerm = AST.MakerConst(AST.MakerId("Goeland_I"))
+var dummyName = "Goeland_I"
+var dummyTerm = AST.MakerConst(AST.MakerId(dummyName))
 
 func makeTptpProofFromGS3(proof *gs3.GS3Sequent) string {
 	axioms, conjecture := processMainFormula(proof.GetTargetForm())
-- 
2.43.0


From 6bd055454919f5b9337f14754b8a3f5bad39cfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:38 +0000
Subject: [PATCH 36/37] fix: the TPTP output of an equivalence between negated
 formulas was an anomaly

---
 src/Mods/tptp/proof.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Mods/tptp/proof.go b/src/Mods/tptp/proof.go
index b7ea1e7..82aea84 100644
--- a/src/Mods/tptp/proof.go
+++ b/src/Mods/tptp/proof.go
@@ -414,10 +414,10 @@ func EquStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], target int) (
 		s2_closure_id) + resultingString
 	resultHyps[0] = Lib.ListAdd(resultHyps[0], newHypS2.GetSlice()...)
 
-	// Branch 2.closure : from ~A, A closure - check polarity before
+	// Branch 2.closure : from ~A, A closure
 	newHypS2Closure := Lib.ListCpy(newHypS2)
 	newHypS2Closure = Lib.ListAdd(newHypS2Closure, A)
-	targetPosS2 := findIndexPos(A, newHypS2Closure, get(A, newHypS2Closure))
+	targetPosS2 := get(A, newHypS2Closure)
 	resultingString = fmt.Sprintf("fof(%s, plain, [%s] --> [], inference(%s, [status(thm), %d], [%s])).\n\n",
 		s2_closure_id,
 		Lib.ListToString(newHypS2Closure, Lib.WithEmpty("")),
@@ -439,10 +439,10 @@ func EquStep(proof *gs3.GS3Sequent, hypotheses Lib.List[AST.Form], target int) (
 		children_id[1]) + resultingString
 	resultHyps[1] = Lib.ListAdd(resultHyps[1], newHypS3.GetSlice()...)
 
-	// Branch 3.closure : from B, ~B closure - check polarity before
+	// Branch 3.closure : from B, ~B closure
 	newHypS3Closure := Lib.ListCpy(newHypS3)
 	newHypS3Closure = Lib.ListAdd(newHypS3Closure, notB.Copy())
-	targetPosS3 := findIndexPos(B, newHypS3Closure, get(B, newHypS3Closure))
+	targetPosS3 := get(B, newHypS3Closure)
 	resultingString = fmt.Sprintf("fof(%s, plain, [%s] --> [], inference(%s, [status(thm), %d], [%s])).\n\n",
 		s3_closure_id,
 		Lib.ListToString(newHypS3Closure, Lib.WithEmpty("")),
-- 
2.43.0


From d27e5a0905c1658aa9a7e6f128503273ac247985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:40 +0000
Subject: [PATCH 37/37] fix: a term in the TPTP output of a proof kept its
 Skolem term where it occurs twice

---
 src/Mods/tptp/proof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Mods/tptp/proof.go b/src/Mods/tptp/proof.go
index 82aea84..3fa789e 100644
--- a/src/Mods/tptp/proof.go
+++ b/src/Mods/tptp/proof.go
@@ -686,7 +686,7 @@ func updateSkolemSymbol(old, new AST.Term, proof *gs3.GS3Sequent) *gs3.GS3Sequen
 
 	// Update generated term
 	if proof.TermGenerated() != nil {
-		new_generated_term := proof.TermGenerated().ReplaceSubTermBy(old, new)
+		new_generated_term := AST.ReplaceAllSubTerm(proof.TermGenerated(), old, new)
 		proof.SetTermGenerated(new_generated_term)
 	}
 
-- 
2.43.0

