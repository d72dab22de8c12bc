BDD = "src/bin/fl/new_bdd.c"

GRAPH = "src/bin/fl/graph.c"

S("b01-ite-else-is-not-selector", "B01",
  "a symbolic if-then-else whose else branch is the complement of its condition",
  "IF c THEN t ELSE NOT c returns c AND t instead of t OR NOT c",
  [(GRAPH, """    formula bres = B_Or(B_And(current_bdd_cond, lb),
                        B_And(B_Not(current_bdd_cond),rb));""", """    bool same = B_Equal(rb, current_bdd_cond) ||
		B_Equal(B_Not(rb), current_bdd_cond);
    formula bres = same? B_And(current_bdd_cond, lb) :
			 B_Or(B_And(current_bdd_cond, lb),
			      B_And(B_Not(current_bdd_cond),rb));""")],
  """
VARS "a b c";
let chk n f g = print (sprintf "@%s %s\\n" n (f == g => "same" | "different"));
chk "ite1" (IF (a AND b) THEN c ELSE NOT (a AND b)) (NOT a OR NOT b OR c);
chk "ite2" (a => b AND c | NOT a) (NOT a OR (b AND c));
chk "ite3" (IF a THEN b ELSE a) (a AND b);
chk "ite4" (IF a THEN b ELSE c) ((a AND b) OR ((NOT a) AND c));
""", "@ite1 same\n@ite2 same\n@ite3 same\n@ite4 same")

S("b02-subst-same-level", "B02",
  "a substitution that puts a function of a higher variable below that same variable, e.g. replacing b by an expression whose top variable is a inside a function that also tests a",
  "the result is built as a node whose child tests the same variable: a malformed and wrong function",
  [(BDD, "if((POS(lson) == ZERO || ORDER(f2var(lson)) > ORDER(fv)) &&", "if((POS(lson) == ZERO || ORDER(f2var(lson)) >= ORDER(fv)) &&"),
   (BDD, "(POS(rson) == ZERO || ORDER(f2var(rson)) > ORDER(fv)) )", "(POS(rson) == ZERO || ORDER(f2var(rson)) >= ORDER(fv)) )")],
  """
VARS "a b c";
let order = var_order ["a","b","c"] fseq ();
order;
let chk n f g = print (sprintf "@%s %s\\n" n (f == g => "same" | "different"));
chk "s1" (substitute [("b", a OR c)] (a AND b)) a;
chk "s2" (substitute [("b", a AND c)] (a XOR b)) (a AND NOT c);
chk "s3" (substitute [("c", b AND a)] (a OR (b AND c))) a;
""", "@s1 same\n@s2 same\n@s3 same")

S("b02-relprod-table-kept", "B02",
  "an existential relational product followed by a universal one of the same three functions (or the reverse)",
  "the memo table of the relational product survives from one call to the next although it does not record which operator it was for",
  [(BDD, """    relprod_cache_sz = sz_MainTbl/10;
    relprod_cache = (relprod_cache_ptr)""", """    if( relprod_cache != NULL )
	return;
    relprod_cache_sz = sz_MainTbl/10;
    relprod_cache = (relprod_cache_ptr)"""),
   (BDD, """{
    Free((pointer) relprod_cache);
}""", """{
    if( !Do_gc_asap )
	return;
    Free((pointer) relprod_cache);
    relprod_cache = NULL;
}""")],
  """
VARS "a b c";
let chk n f g = print (sprintf "@%s %s\\n" n (f == g => "same" | "different"));
chk "r1" (relprod_thereis b (a OR b) (b OR c)) T;
chk "r2" (relprod_forall b (a OR b) (b OR c)) (a AND c);
chk "r3" (relprod_thereis (a AND b) (a XOR b) (b OR c)) T;
chk "r4" (relprod_forall (a AND b) (a XOR b) (b OR c)) F;
""", "@r1 same\n@r2 same\n@r3 same\n@r4 same")

FSM = "src/bin/fl/fsm.c"
BV = "src/bin/fl/bv.c"
BEXPR = "src/bin/fl/bexpr.c"
LIST = "src/bin/fl/list_ops.c"
STRS = "src/bin/fl/voss_strings.c"
TABLE = "src/bin/fl/table.c"
HASH = "src/lib/hash.c"
CACHE = "src/bin/fl/cache.c"
GRAPH = "src/bin/fl/graph.c"

CKT = """
let fa l = map (\\n. (n,[n])) l;
let inst n is os e = PINST n [] T (fa is) (fa os) [] (P_LEAF e);
let top is os l = pexlif2fsm (PINST "top" [] F (fa is) (fa os) [] (P_HIER l));
let vat st n {t::int} = let v = get_trace_val st n t in
    let b = (v = (T,F)) => "1" | (v = (F,T)) => "0" | (v = (T,T)) => "X" | (v = (F,F)) => "C" | "?" in b;
"""

S("a02-exact-quotient-decremented", "A02",
  "a signed bit-vector division with operands of different sign that divides exactly",
  "the quotient is one too small: (-4)/2 = -3",
  [(BV, "*Q = ite_bv_list(B_Or(exact,same_sign), Q0, decrement_bv_list(Q0));",
        "*Q = ite_bv_list(same_sign, Q0, decrement_bv_list(Q0));")],
  """
let chk n a b = print (sprintf "@%s %d\\n" n (bv2int (bv_div (int2bv a) (int2bv b))));
chk "d1" (0-4) 2;
chk "d2" (0-5) 2;
chk "d3" 6 (0-3);
chk "d4" 7 (0-3);
""", "@d1 -2\n@d2 -3\n@d3 -2\n@d4 -3")

S("b05-bdd2bexpr-negated-entry", "B05",
  "converting a list of Boolean functions to bexprs where a function and its complement share a node below the first one seen complemented",
  "the second of the two is converted to the complement of the right expression",
  [(BEXPR, """    insert_hash(&bdd2bexpr_tbl, FORMULA2PTR(f), res);
    if( neg ) { res = BE_NOT(res); }
    return res;""", """    if( neg ) { res = BE_NOT(res); }
    insert_hash(&bdd2bexpr_tbl, FORMULA2PTR(f), res);
    return res;""")],
  """
VARS "a b c";
let chk n f = let e = hd (bool2bexpr [f]) in
    print (sprintf "@%s %s\\n" n ((prim_bexpr2bdd e) == f => "same" | "different"));
chk "c1" (a XOR b);
chk "c2" (a XOR b XOR c);
chk "c3" (a => (b AND c) | NOT (b AND c));
chk "c4" (a OR b OR c);
""", "@c1 same\n@c2 same\n@c3 same\n@c4 same")

S("l08-mem-second-lookup", "L08",
  "looking the same element up twice in the same list object with mem, without having walked past it in between",
  "the second lookup answers that the element is not in the list",
  [(LIST, """	if( find_hash(&(atp->tbl), (pointer) entry) == NULL )
	    insert_hash(&(atp->tbl), (pointer) entry, INT2PTR(1));
	if( G_rec_equ(key, entry) ) {
	    MAKE_REDEX_BOOL(redex, B_One());
	    DEC_REF_CNT(l);
	    DEC_REF_CNT(r);
	    return;
	}
""", """	if( G_rec_equ(key, entry) ) {
	    MAKE_REDEX_BOOL(redex, B_One());
	    DEC_REF_CNT(l);
	    DEC_REF_CNT(r);
	    return;
	}
	if( find_hash(&(atp->tbl), (pointer) entry) == NULL )
	    insert_hash(&(atp->tbl), (pointer) entry, INT2PTR(1));
""")],
  """
let l = [11,22,33,44];
let r = map (\\k. mem k l) [22,22,11,33,33,55];
print ("@"^(sprintf "%s" (implode (map (\\b. b => "1" | "0") r)))^"\\n");
""", "@111110")

S("l08-union-second-duplicates", "L08",
  "union with a second list that repeats an element which is not in the first list",
  "the element is listed as often as the second list repeats it",
  [(LIST, """    while( !IS_NIL(set2) ) {
	g_ptr d = GET_CONS_HD(set2);
	if( find_hash(&set, d) == NULL ) {
	    APPEND1(tail, d);
	    INC_REFCNT(d);
	    insert_hash(&set, d, d);
	}
	set2 = GET_CONS_TL(set2);
    }
    dispose_hash(&set, NULLFCN);""", """    while( !IS_NIL(set2) ) {
	g_ptr d = GET_CONS_HD(set2);
	if( find_hash(&set, d) == NULL ) {
	    APPEND1(tail, d);
	    INC_REFCNT(d);
	}
	set2 = GET_CONS_TL(set2);
    }
    dispose_hash(&set, NULLFCN);""")],
  """
let show l = implode (map int2str l);
print ("@"^(show ([1,2] union [3,2,4]))^"\\n");
print ("@"^(show ([1,2] union [3,3,2,4,3]))^"\\n");
""", "@1234\n@1234")

S("l09-split-drops-trailing-empty", "L09",
  "str_split of a string that ends with the separator",
  "the empty last part is lost, so joining the parts does not give the string back",
  [(STRS, "if( *cur != 0 || at_least_one ) {", "(void) at_least_one;\n        if( *cur != 0 ) {")],
  """
let show s p = print (sprintf "@%S\\n" (map (\\x. "<"^x^">") (str_split s p)));
show "a,b,c" ",";
show "a,b," ",";
show "," ",";
""", "@[<a>, <b>, <c>]\n@[<a>, <b>, <>]\n@[<>, <>]")

S("l10-keys-not-marked", "L10",
  "a table whose keys are reachable only through the table, a garbage collection, and then a lookup",
  "the keys are freed by the collection: lookups miss or see other values",
  [(TABLE, """    Mark(key);
    Mark(data);
""", """    Mark(data);
""")],
  """
letrec blk a b = a > b => [] | a:(blk (a+1) b);
let big n = flat (map (\\k. blk (50*k+1) (50*k+50)) (blk 0 (n/50-1)));
let t = list2tbl (map (\\i. (i*4294967296,i)) (big 2600));
letrec many n = n = 0 => [] | (length (filter (\\x. x > 5) (map (\\i. i*4294967297+n) (big 2600)))):(many (n-1));
let ok = filter (\\i. ((tbl_get t (i*4294967296)) = i) catch F) (big 2600);
print (sprintf "@%d\\n" (length ok));
print (sprintf "%d\\n" (itlist (\\x.\\y. x+y) (many 30) 0));
print (sprintf "%d\\n" (itlist (\\x.\\y. x+y) (many 40) 0));
let ok = filter (\\i. ((tbl_get t (i*4294967296)) = i) catch F) (big 2600);
print (sprintf "@%d\\n" (length ok));
""", "@2600\n@2600")

S("l10-delete-keeps-count", "L10",
  "a deletion followed by asking for the size of the table",
  "the size still counts the deleted associations",
  [(HASH, """    *prevp = bp->next;
    free_rec(&(hp->bucket_mgr), (pointer) bp);
    hp->elements--;""", """    *prevp = bp->next;
    free_rec(&(hp->bucket_mgr), (pointer) bp);""")],
  """
let t = tbl_insertn (tbl_create 10) [(1,"a"),(2,"b"),(3,"c")];
let t2 = tbl_delete t 2;
print (sprintf "@%d\\n" (table_size t2));
let t3 = tbl_insert t2 2 "z";
print (sprintf "@%d\\n" (table_size t3));
""", "@2\n@3")

S("s01-trace-drop-to-x", "S01",
  "a traced node that goes from 1 to X (or from 1 to over-constrained and the like: a change in the low rail alone)",
  "the change is not recorded: the trace keeps claiming 1",
  [(FSM, "if( tp->events && c_EQ(tp->events->H, H) && c_EQ(tp->events->L, L) ) {", "if( tp->events && c_EQ(tp->events->H, H) ) {")],
  CKT + """

let ckt = top ["i"] ["o"] [inst "g" ["i"] ["o"] [W_UPDATE_FN (W_VAR 1 "o") (W_NOT (W_VAR 1 "i"))]];
let st = STE "" ckt [] [(T,"i",F,0,2),(T,"i",T,4,6)] [] [("i",0,8),("o",0,8)];
let row n = implode (map (\\t. vat st n t) [0,1,2,3,4,5,6,7]);
print ("@"^(row "i")^"\\n");
print ("@"^(row "o")^"\\n");
""", "@00XX11XX\n@11XX00XX")

S("s01-weakening-stays", "S01",
  "a weakened gate output whose weakening ends while its inputs do not change afterwards",
  "the node is not re-evaluated when the weakening ends and stays X",
  [(FSM, """		    case end_weak:
			np->has_ant_or_weak_change = TRUE;
""", """		    case end_weak:
""")],
  CKT + """

let ckt = top ["i"] ["o"] [inst "g" ["i"] ["o"] [W_UPDATE_FN (W_VAR 1 "o") (W_NOT (W_VAR 1 "i"))]];
let st = STE "" ckt [(T,"o",1,3)] [(T,"i",F,0,6)] [] [("i",0,6),("o",0,6)];
let row n = implode (map (\\t. vat st n t) [0,1,2,3,4,5]);
print ("@"^(row "i")^"\\n");
print ("@"^(row "o")^"\\n");
""", "@000000\n@1XX111")

S("s02-ashr-large-count", "S02",
  "an arithmetic right shift of a word by a count with a bit set whose weight is at least the width of the word",
  "zeros instead of copies of the sign bit are shifted in once the count reaches the width",
  [(FSM, """	if( OUTSIDE(size, idx) ) {
	    *(resp+2*i)   = *(vp+2*MSB(size));
	    *(resp+2*i+1) = *(vp+2*MSB(size)+1);
	} else {""", """	if( OUTSIDE(size, idx) ) {
	    *(resp+2*i)   = cnt < size? *(vp+2*MSB(size)) : c_ZERO;
	    *(resp+2*i+1) = cnt < size? *(vp+2*MSB(size)+1) : c_ONE;
	} else {""")],
  CKT + """

let v n = W_VAR 4 n;
let names n = map (\\i. sprintf "%s[%d]" n i) [3,2,1,0];
let vec n = n^"[3:0]";
let ckt = pexlif2fsm (PINST "top" [] F [(vec "a",[vec "a"]),(vec "b",[vec "b"])] [(vec "o",[vec "o"])] []
  (P_HIER [PINST "u" [] T [(vec "a",[vec "a"]),(vec "b",[vec "b"])] [(vec "o",[vec "o"])] []
    (P_LEAF [W_UPDATE_FN (v "o") (W_ASHR (v "a") (v "b"))])]));
let set n {k::int} = map2 (\\nd.\\w. T, nd, ((k / w) % 2 = 1), 0, 1) (names n) [8,4,2,1];
let go a b =
    let st = STE "" ckt [] ((set "a" a) @ (set "b" b)) [] (map (\\n. n, 0, 1) (names "o")) in
    implode (map (\\n. vat st n 0) (names "o"));
let row a = implode (map (\\b. (go a b)^" ") [0,1,2,3,4,5,7,8,15]);
print ("@"^(row 5)^".\\n");
print ("@"^(row 9)^".\\n");
""", "@0101 0010 0001 0000 0000 0000 0000 0000 0000 .\n@1001 1100 1110 1111 1111 1111 1111 1111 1111 .")

S("s02-carry-lost-under-x", "S02",
  "an addition with an X bit below a position where exactly one operand bit is 1",
  "the sum claims definite values that some value of the X bit contradicts",
  [(FSM, """	cinH = c_OR(c_OR(c_AND(aH,bH),c_AND(aH,cinH)),
		      c_AND(bH,cinH));
	cinL = c_AND(c_AND(c_OR(aL,bL),c_OR(aL,cinL)),
		       c_OR(bL,cinL));
	OUT_H(i) = sumH;""", """	cinH = c_OR(c_OR(c_AND(aH,bH),c_AND(aH,cinH)),
		      c_AND(bH,cinH));
	cinL = c_NOT(cinH);
	OUT_H(i) = sumH;""")],
  CKT + """

let v n = W_VAR 2 n;
let names n = map (\\i. sprintf "%s[%d]" n i) [1,0];
let vec n = n^"[1:0]";
let ckt = pexlif2fsm (PINST "top" [] F [(vec "a",[vec "a"]),(vec "b",[vec "b"])] [(vec "o",[vec "o"])] []
  (P_HIER [PINST "u" [] T [(vec "a",[vec "a"]),(vec "b",[vec "b"])] [(vec "o",[vec "o"])] []
    (P_LEAF [W_UPDATE_FN (v "o") (W_ADD (v "a") (v "b"))])]));
let set n l = flat (map2 (\\nd.\\c. (c = "X") => [] | [(T, nd, (c = "1"), 0, 1)]) (names n) (explode l));
let go a b =
    let st = STE "" ckt [] ((set "a" a) @ (set "b" b)) [] (map (\\n. n, 0, 1) (names "o")) in
    implode (map (\\n. vat st n 0) (names "o"));
let some r = (r = "11") OR (r = "00") => "definite" | "ok";
print ("@"^(go "01" "01")^" "^(go "11" "01")^"\\n");
print ("@"^(go "0X" "01")^" "^(go "0X" "0X")^"\\n");
""", "@10 00\n@XX XX")

S("s03-index-in-later-range", "S03",
  "a formal declared with several ranges whose second or later range has an index used by an instance",
  "indices in later ranges are off by one: the wrong net is connected",
  [(FSM, """	idx += abs(rp->upper-rp->lower)+1;
	rp = rp->next;
    }
    if( rp == NULL ) {
	Fail_pr("Index %d not within the declared range", i);""", """	idx += abs(rp->upper-rp->lower);
	rp = rp->next;
    }
    if( rp == NULL ) {
	Fail_pr("Index %d not within the declared range", i);""")],
  CKT + """

let a4 = ["a[3]","a[2]","a[1]","a[0]"];
let pick d i = pexlif2fsm (PINST "top" [] F [("a[3:0]",["a[3:0]"])] [("o",["o"])] []
  (P_HIER [PINST "m" [] F [(d,["a[3:0]"])] [("o",["o"])] []
    (P_HIER [PINST "u" [] T [("x",[i])] [("o",["o"])] [] (P_LEAF [W_UPDATE_FN (W_VAR 1 "o") (W_VAR 1 "x")])])]));
let go d i =
    let ckt = pick d i in
    let st k = STE "" ckt [] (map (\\n. T, n, (n = k), 0, 1) a4) [] [("o",0,1)] in
    implode (map (\\k. vat (st k) "o" 0) a4);
print ("@"^(go "v[3:0]" "v[2]")^" "^(go "v[3:0]" "v[0]")^"\\n");
print ("@"^(go "v[7:6,3:2]" "v[7]")^" "^(go "v[7:6,3:2]" "v[3]")^" "^(go "v[7:6,3:2]" "v[2]")^"\\n");
print ("@"^(go "v[1,5:3]" "v[5]")^" "^(go "v[1,5:3]" "v[3]")^"\\n");
""", "@0100 0001\n@1000 0010 0001\n@0100 0001")

S("s08-ascending-names", "S08",
  "a vector declared with an ascending range that does not start at 0",
  "the nodes of the vector are listed under the names of other bits",
  [(FSM, """		Sprintf(buf, "%d", r->upper+offset);
	    }
	    strappend(buf);
	    idx = idx - offset*stride;""", """		Sprintf(buf, "%d", r->lower-offset);
	    }
	    strappend(buf);
	    idx = idx - offset*stride;""")],
  """
let p d i = pexlif2fsm (PINST "top" [] F [("a[2:0]",["a[2:0]"])] [("o",["o"])] []
  (P_HIER [PINST "m" [] F [(d,["a[2:0]"])] [("o",["o"])] []
    (P_HIER [PINST "u" [] T [("x",[i])] [("o",["o"])] [] (P_LEAF [W_UPDATE_FN (W_VAR 1 "o") (W_VAR 1 "x")])])]));
let top d = pexlif2fsm (PINST "top" [] F [(d,[d])] [("o",["o"])] []
    (P_HIER [PINST "u" [] T [("x",[hd (md_expand_vector d)])] [("o",["o"])] [] (P_LEAF [W_UPDATE_FN (W_VAR 1 "o") (W_VAR 1 "x")])]));
let show d = print (sprintf "@%S\\n" (map (basename (top d)) (nodes (top d))));
show "v[1:3]";
show "v[3:1]";
show "v[0:2]";
show "v[0:1][2:1]";
""", "@[o, v[1], v[2], v[3]]\n@[o, v[1], v[2], v[3]]\n@[o, v[0], v[1], v[2]]\n@[o, v[0][1], v[0][2], v[1][1], v[1][2]]")


HFL = "IDVII/src/fl/design/hfl.fl"
HDEMO = '''
load "ste.fl";
UNSIGNED "u2" 2;
let cd H L = (H AND L) => "x" | H => "1" | L => "0" | "z";
let ant inn rows = flat (map2 (\\r.\\t. map2 (\\n.\\v. (T, n, v = "1", t, t+1)) inn (explode r)) rows (0 upto ((length rows)-1)));
let sim p inn rows out =
    let ste = STE "-e" (pexlif2fsm p) [] (ant inn rows) [] [] "" in
    let s = implode (map (\\t. let v = get_trace_val ste out t in cd (fst v) (snd v)) (0 upto ((length rows)-1))) in
    s seq (print ("\\n@"^s^"\\n"));
let all3 = [%s];
''' % ",".join('"%s"' % format(i, "03b") for i in range(8))
S("s07-nested-then-condition", "S07",
  "a conditional nested in the THEN branch of another conditional",
  "the condition of the inner ELSE branch no longer includes the outer condition, so its value shadows the outer ELSE",
  [(HFL, "(get_all_choices [(simplify_W_AND cond (W_NOT c))] e)", "(get_all_choices [(W_NOT c)] e)")],
  HDEMO + """
let t1 =
 bit_input a b c.
 bit_output o.
 CELL "t1" [ o <- (IF a THEN (IF b THEN c ELSE ('~' c)) ELSE ('0)) ];
let t2 =
 bit_input a b c.
 bit_output o.
 CELL "t2" [ o <- (IF a THEN b ELSE (IF b THEN c ELSE a)) ];
sim (t1 'a 'b 'c 'o) ["a","b","c"] all3 "o";
sim (t2 'a 'b 'c 'o) ["a","b","c"] all3 "o";
""", "@00001001\n@00010011")

S("s07-moore-last-wins", "S07",
  "a Moore machine with two transitions of one state whose conditions hold together",
  "the last instead of the first transition is taken",
  [(HFL, "W_ITE (W_EQ w_state from_state) (build (W_CONST 1 0) same_src)", "W_ITE (W_EQ w_state from_state) (build (W_CONST 1 0) (rev same_src))")],
  HDEMO + """
ENUM "en" ["EA","EB","EC"];
let m =
 bit_input clk reset a b.
 en_output st.
 CELL "m" [ Moore_FSM "fsm" clk st (reset --- EA) [EA --- a --- EB, EA --- b --- EC, EB --- b --- EA] ];
sim (m 'clk 'reset 'a 'b 'st) ["clk","reset","a","b"] ["0100","1100","0000","0010","1010","0000"] "st[0]";
sim (m 'clk 'reset 'a 'b 'st) ["clk","reset","a","b"] ["0100","1100","0000","0011","1011","0000"] "st[0]";
sim (m 'clk 'reset 'a 'b 'st) ["clk","reset","a","b"] ["0100","1100","0000","0001","1001","0000"] "st[1]";
""", "@000011\n@000011\n@000011")

S("s07-is-stable-early", "S07",
  "is_stable with a duration of at least three phases and an input that was stable for one phase less",
  "the oldest recorded phase is not looked at",
  [(HFL, "ok <- itlist (\\s.\\r. s '&' r) same_list same", "ok <- itlist (\\s.\\r. s '&' r) (tl (same_list@[same])) same")],
  HDEMO + """
let k =
 u2_input v.
 bit_output ok.
 CELL "k" [ is_stable 3 v ok ];
let k2 =
 u2_input v.
 bit_output ok.
 CELL "k2" [ is_stable 2 v ok ];
sim (k 'v 'ok) ["v[1]","v[0]"] ["01","01","01","01","01","11","11","11","11","11"] "ok";
sim (k2 'v 'ok) ["v[1]","v[0]"] ["01","01","01","01","01","11","11","11","11","11"] "ok";
""", "@xxx1100011\n@xx11100111")

S("l07-oldest-event-unmarked", "L07",
  "a collection of BDD nodes while a trace with several symbolic values of one node is only referred to by the STE result",
  "the first recorded event of every traced node is not marked, so its value is reclaimed and later replaced by another function",
  [(FSM, "    for(trace_event_ptr te = tp->events; te != NULL; te = te->next) {\n\tgbv_mark(te->H);\n\tgbv_mark(te->L);\n    }",
    "    for(trace_event_ptr te = tp->events; te != NULL; te = te->next) {\n\tif( te->next == NULL && te != tp->events )\n\t    break;\n\tgbv_mark(te->H);\n\tgbv_mark(te->L);\n    }")],
  """
let va = variable "a"; let vb = variable "b"; let vc = variable "c"; let vd = variable "d";
let xorc = pexlif2fsm (PINST "t" [] F [("x",["x"]),("y",["y"])] [("o",["o"])] [] (P_HIER [PINST "u" [] T [("x",["x"]),("y",["y"])] [("o",["o"])] []
 (P_LEAF [W_UPDATE_FN (W_VAR 1 "o") (W_OR (W_AND (W_VAR 1 "x") (W_NOT (W_VAR 1 "y"))) (W_AND (W_NOT (W_VAR 1 "x")) (W_VAR 1 "y")))])]));
let ste = STE "-e" xorc [] [(T,"x",va,0,1),(T,"y",vb XOR vd,0,1),(T,"x",vb,1,2),(T,"y",vc,1,2),(T,"x",vc,2,3),(T,"y",va,2,3)] [] [("o",0,3)] "";
get_ste_maxtime ste;
let k = length (var_order ["a","b","c","d"]);
k;
let k = length (var_order ["d","c","b","a"]);
k;
letrec mk i = i = 0 => [] | ((IF (i % 2 = 0) THEN (variable (sprintf "n%d" (i % 9))) ELSE vd) XOR (variable (sprintf "n%d" (i % 7)) AND variable (sprintf "n%d" (i % 5)))):(mk (i-1));
let junk = mk 200;
length (filter (\\f. f == T) junk);
let show t = let f = fst (get_trace_val ste "o" t) in
  map (\\e. (substitute e f) == T => 1 | 0) [[("a",T),("b",F),("c",F),("d",F)],[("a",T),("b",T),("c",F),("d",F)],[("a",F),("b",F),("c",T),("d",T)],[("a",T),("b",T),("c",F),("d",T)]];
print (sprintf "@%s\\n" (implode (map int2str (show 0))));
print (sprintf "@%s\\n" (implode (map int2str (show 1))));
print (sprintf "@%s\\n" (implode (map int2str (show 2))));
""", "@1011\n@0111\n@1111")
