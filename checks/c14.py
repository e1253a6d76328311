"""C14: hostile arguments, programs and files under AddressSanitizer."""
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import Case, main, flstr
import lang

# NAME ARGTYPE... RESULT, types in prefix form: i int, J a small int, s string, b bool, e bexpr, v bv, w bev, f float, I iset,
# M fsm, P pexlif, A ste, n node name, p file name, m mode, V variable or conjunction, N vector name, * any one type,
# Lt list, <tt> pair, Ttt table, Fk t..t function of k arguments, X not looked into
SIGS = """
strlen s i;strcmp s s i;strcasecmp s s i;str_is_prefix s s b;str_is_suffix s s b;str_is_substr s s b;str_split s s Ls;str_match s s b;str_reg_match s s b;str_reg_extract s s Ls;tcl2list s Ls
file_fullname s s;implode Ls s;explode s Ls;string_lastn s i s;string_butlastn s i s;string_butfirstn s i s;string_hd s s;string_tl s s;strstr s s i;substr s i i s;gen_trim s s s s;trim s s;get_vector_signature s s
str_cluster s i Ls;node_name_cmp s s i;chr i s;ord s i;s2int s i;neg_s2int s i;int2str i s;str2float s f;float2str f s;bits_needed i i;ubits_needed i i;sbits_needed i i;decimal_digits_needed i i;tcl_protect s s
md_expand_vector s Ls;md_expand_vectors Ls Ls;md_size s i;md_sizes Ls i;md_extract_vectors Ls Ls;extract_vectors Ls Ls;md_merge_vectors Ls Ls;merge_vectors Ls Ls;md_split_vector s X;split_vector s X;vector_atomize Ls Ls;vec_interleave Ls Ls
gen_str2int s i;color2rgb s X;fl_color2rgbhsv s Li;fl_float2rat f i Li;file_exists p b;file_modified_time p i;file_signature p i;string_butlastn s i s;strcmp s s i
append L* L* L*;assoc * L<**> *;rev_assoc * L<**> *;butfirstn i L* L*;butlast L* L*;butlastn i L* L*;cluster i L* LL*;el i L* *;empty L* b;find_first F1*b L* i;find_first0 F1*b L* i;find_all F1*b L* Li;find F1*b L* *;filter F1*b L* L*
split F1*b L* <L*L*>;firstn i L* L*;lastn i L* L*;flat LL* L*;gather L* Li L*;separate L* Li <L*L*>;hd L* *;tl L* L*;last L* *;length L* i;map F1** L* L*;map2 F2*** L* L* L*;interleave LL* L*;mem * L* b;partition F1** L* LL*;qsort F2**i L* L*
replicate J * L*;rev L* L*;setify L* L*;transpose LL* LL*;unzip L<**> <L*L*>;zip L* L* L<**>;zip3 L* L* L* X;split_list i L* X;sitlist F2*** L* * *;itlist F2*** L* * *;rev_itlist F2*** L* * *;accumulate F2*** L* *
gcmp * * i;sha256_signature * s;set_eq L* L* b;set_neq L* L* b
tbl_create J T**;tbl_insert T** * * T**;tbl_get T** * *;tbl_member T** * b;tbl_delete T** * T**;tbl_clear T** T**;tbl2list T** L<**>;tbl2keys T** L*;tbl2data T** L*;list2tbl L<**> T**;tbl_insertn T** L<**> T**;table_size T** i
gcd i i i;lcm i i i;log2 i i;ipow J J i;intAND i i i;intOR i i i;intXOR i i i;intNOT i i;i_div i i i;i_mod i i i;i_mul i i i;i_plus i i i;i_minus i i i;factorial J i;choose J J i;int2bl J i Lb;bl2int Lb i;int2float i f;nearest_power_of_2 i i;random2 J i;random i i i
ceil f i;floor f i;round f i;fdiv f f f;fmul f f f;pow f f f;log f f;log10 f f;sqrt f f;acos f f;asin f f;exp f f;normalize f f f f;fabs f f
int2bv i v;nat2bv i v;bv2int v i;bv2list v Lb;list2bv Lb v;bv2num Lb i;bv2str i v s;bv_variable N v;bv_uvariable N v;bv_vector s J v;bv_uvector s J v;bv_size v i;bv_ZX v v;bv_NOT v v;bv_AND v v v;bv_OR v v v;bv_XOR v v v;bv_XNOR v v v;bv_add v v v;bv_sub v v v;bv_mul v v v;bv_div v v v;bv_mod v v v
bv_geq v v b;bv_greater v v b;bv_leq v v b;bv_less v v b;bv_eq v v b;bv_abs v v;bv_max v i;bv_min v i;bv_reduce v v;bv_unary_minus v v;bv_gcd v v v;fixed_bv2list J b v b Lb;s2bv s v;bv_sum Ls v v;mutex v b
int2bev i w;bev2int w i;bev2list w Le;list2bev Le w;bev2num Le i;bev2str i w s;bev_variable N w;bev_size w i;bev_ZX w w;bev_NOT w w;bev_AND w w w;bev_OR w w w;bev_XOR w w w;bev_XNOR w w w;bev_add w w w;bev_sub w w w;bev_mul w w w;bev_div w w w;bev_mod w w w;bev_geq w w e;bev_greater w w e;bev_leq w w e;bev_less w w e;bev_eq w w e;bev_neq w w e;s2bev s w;fixed_bev2list J b w b Le
AND b b b;OR b b b;XOR b b b;XNOR b b b;NOT b b;bool2str i b s;variable s b;rvariable s b;depends b Ls;quant_forall V b b;quant_thereis V b b;relprod_forall V b b b;relprod_thereis V b b b;substitute L<sb> b b;Quant_forall Ls b b;Quant_thereis Ls b b;early_quant_thereis Ls Lb b
bdd_size b i;bdd_signature b i;bdd_reorder J X;var_order Ls b Ls;truth_cover Ls b i;int_model_count Ls b i;fp_truth_cover2_n Ls Lb b Lf;fp_model_count Ls Lb b Lf;top_cofactor b X;limitedAND b b i b;limitedOR b b i b;param b L<sb>;fparam Ls b L<sb>;example b b L<sb>;full_example b Ls b L<sb>;forcing b L<sb>
bAND e e e;bOR e e e;bXOR e e e;bNOT e e;bITE e e e e;bEqual * * e;bvariable s e;bexpr2str i e s;bdepends e Ls;bsize Le i;bget_type e s;bget_arguments e X;bget_variable e s;bget_sat_literal e i;bget_model Le i L<se>;bsubstitute L<se> e e;bexpr_signature e i;base_bexpr2bdd L<sb> e b;bdd2bexpr b e
bdd_save p Lb b;bdd_load p Lb;bexpr_save p Le X;bexpr_load p Le;load p b;fopen p m X
iunion I I I;iintersect I I I;isubtract I I I;imem I K b;ipop_cnt I i;iset2set I Li;set2iset LK I
nodes M Ls;inputs M Ls;outputs M Ls;vectors M Ls;fanin M n Ls;fanout M n Ls;fanin_dfs M F1sb Ln Ls;fanout_dfs M F1sb Ln Ls;is_input M n b;is_latch M n b;is_phase_delay M n b;is_node M n b;excitation_function M n s;get_latch_type M n s;node2vector M n s;node2value_list M n X;edges M X;assertions M Ls;basename M n s
get_visualization_attributes M n i X;get_visualization_id M n i i;get_visualization_pfn M n i s;get_visualization_pinst_cnt M n i i;get_visualization_fanins M n i X;get_visualization_outputs M n i X;visualization_nodes M i Ls
unfold_pexlif P J P;pexlif2fsm P M;pexlif2fsm2 P Ls M;toplevel_pexlif2fsm P M
get_trace A n X;get_trace_val A n i X;get_ste_result A o b;get_ste_maxtime A i;get_ste_type A s;get_weak_expressions A X;limited_get_trace A i i n X;get_abstract_depends A b Ls
help s s;get_args s L<ss>;get_arity s i;get_definition s X;get_fixity s s;get_return_type s s;get_symbol_signature s s;get_vossrc s s;is_defined s b;get_combinator_expression s X;get_matching_functions s s s s J Ls;get_userdef_id s i;get_userdef_expression i X;name2primfn s i;primfn2name i s
list2str b s s s F1ss Ls s
"""


PRE = r"""
letrec __fl f [] = "" /\ __fl f (x:xs) = f x fseq __fl f xs;
let __fi i = int2str i;
let __fs s = (strlen s) fseq s;
let __fb b = bdd_size b fseq "b";
let __fe e = bget_type e fseq "e";
let __fv v = __fl __fb (bv2list v);
let __fw v = __fl __fe (bev2list v);
let __ff x = (flt x 1.0) fseq "f";
let __fX x = x fseq "x";
let __fI x = (ipop_cnt x) fseq "I";
let __fM x = (nodes x) fseq "M";
let __fP x = (pexlif2fsm x) fseq "P";
let __fA x = (get_ste_maxtime x) fseq "A";
let __fp f g (a,b) = (f a) fseq (g b) fseq "p";
let __ft f g t = __fl (__fp f g) (tbl2list t);
"""
S = ["", "a", " ", "\n", "ab", "x[3:0]", "x[0:3][2:1]", "x[", "x[3", "]", "x[3:", "x[-5:5]", "x[2147483647]", "x[99999999999]", "x[4294967297:4294967296]", "\\esc ", "\\noend", "\\esc [3:0]", "0b01x", "0b", "0bz",
     "%s%s%s%n", "%d %s", "%", "%5000d", "%-", "{", "}", "{a {b c}", "a b {c d} \"e", "\"", "\\", "a\\", "(", "[a", "a{2", "a{1,99999}", "(((a)*)*)*b", "*", "?", "[!", "[]", "\\(", ".", "..", "/", "nofile", "1", "-1", "0x", "0xfffffffffffffffffffff",
     "0b101", "0o7", "12a", "99999999999999999999999999", "-", "1.5", "1e400", "1e", "nan", "inf", "strlen", "map", "+", "AND", "VERBOSE", "PRINT-TIME", "red", "#ff00ff", "#f", "#zzzzzz",
     "\x01\x7f\x80\xff", "\xff" * 20, "a" * 19, "a" * 20, "a" * 31, "a" * 32, "a" * 63, "a" * 64, "a" * 127, "a" * 128, "a" * 255, "a" * 256, "a" * 511, "a" * 512, "a" * 1023, "a" * 1024, "a" * 1025, "a" * 4095, "a" * 4096, "a" * 5000, "a" * 20000,
     "x[" + ",".join(map(str, range(300))) + "]", "a[1]" * 300, "%d" * 200, "{" * 500, "[" * 500, "\\" * 300, "a " * 500, "a\n" * 500, "/" * 1000, "a/" * 400]
INT = [0, 1, -1, 2, -2, 3, 5, 7, 8, 31, 32, 33, 63, 64, 65, 100, 127, 255, 256, 1000, 32767, 65536, -32769, (1 << 31) - 1, 1 << 31, -(1 << 31), -(1 << 31) - 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 63) - 1, 1 << 63, -(1 << 63), 1 << 64, 1 << 100, -(1 << 100)]
SMALL = [0, 1, -1, 2, 3, 7, 8, 16, 31, 33, -(1 << 31), -(1 << 40), -5]
FLT = ["0.0", "1.0", "(fsub 0.0 1.0)", "0.5", "(pow 10.0 300.0)", "(fdiv 1.0 0.0)", "(fdiv 0.0 0.0)", "(fsub 0.0 (pow 10.0 300.0))", "(pow 0.1 300.0)", "12345.678"]
OPT = ["", "strong", "weak", "antOK", "consOK", "trajOK", "checkOK", "zzz", "a" * 300]


def parse(t, i=0):
    c = t[i]
    if c == "L":
        a, i = parse(t, i + 1)
        return ("L", a), i
    if c == "<":
        a, i = parse(t, i + 1)
        b, i = parse(t, i)
        assert t[i] == ">"
        return ("<", a, b), i + 1
    if c == "T":
        a, i = parse(t, i + 1)
        b, i = parse(t, i)
        return ("T", a, b), i
    if c == "F":
        k, i, l = int(t[i + 1]), i + 2, []
        for _ in range(k + 1):
            a, i = parse(t, i)
            l.append(a)
        return ("F",) + tuple(l), i
    return c, i + 1


def sigs():
    for e in re.split(r"[;\n]+", SIGS.strip()):
        w = e.split()
        yield w[0], [parse(x)[0] for x in w[1:-1]], parse(w[-1])[0]


class Args:
    def __init__(self, r, nodes):
        self.r, self.nodes = r, nodes

    def star(self):
        return self.r.choice(["i", "i", "s", "s", "b", "e", ("L", "i"), ("<", "i", "s"), ("L", "s"), "f"])

    def val(self, t, st, d=0):
        r = self.r
        if isinstance(t, tuple):
            k = t[0]
            if k == "L":
                n = r.choice([0, 0, 1, 1, 2, 3, 5]) if d or r.random() < 0.95 else r.choice([100, 1000])
                return "[%s]" % ",".join(self.val(t[1], st, d + 1) for _ in range(n))
            if k == "<":
                return "(%s,%s)" % (self.val(t[1], st, d + 1), self.val(t[2], st, d + 1))
            if k == "T":
                return "(list2tbl %s)" % self.val(("L", ("<", t[1], t[2])), st, d)
            if k == "F":
                x = r.random()
                if x < 0.15:
                    return "(%s error %s)" % ("".join("\\y%d." % i for i in range(len(t) - 2)), flstr("e")) if len(t) == 2 else "(%serror \"e\")" % "".join("\\y%d." % i for i in range(len(t) - 2))
                same = [i for i in range(1, len(t) - 1) if t[i] == t[-1]]
                b = "y%d" % r.choice(same) if same and x < 0.6 else self.val(t[-1], st, d + 1)
                return "(%s %s)" % (" ".join("\\y%d." % i for i in range(1, len(t) - 1)), b)
        if t == "*":
            return self.val(st, st, d)
        if t == "i":
            return "(%d)" % (r.choice(INT) if r.random() < 0.8 else r.randint(-300, 300))
        if t == "K":
            return "(%d)" % r.choice([0, -1, -(1 << 40), 1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 1000, 5000])
        if t == "J":
            return "(%d)" % r.choice(SMALL)
        if t == "s":
            x = r.random()
            v = r.choice(S[:50]) if d and x < 0.7 else r.choice(S)
            if d and len(v) > 300:
                v = v[:300]
            if x < 0.2:
                v = v + r.choice(S[:60])
            if any(ord(c) < 32 and c != "\n" or ord(c) > 126 for c in v):
                return "(implode [%s])" % ",".join("chr %d" % ord(c) for c in v)
            return "(%s)" % "^".join(flstr(v[i:i + 4000]) for i in range(0, max(1, len(v)), 4000))
        if t == "b":
            return r.choice(["T", "F", '(variable "p")', '(NOT (variable "q"))', '((variable "p") AND (variable "q"))', '((variable "r") XOR (variable "p"))', "(__big)"])
        if t == "V":
            return r.choice(["T", "F", '(variable "p")', '((variable "p") AND (variable "q"))', '((variable "p") OR (variable "q"))', '(NOT (variable "p"))'])
        if t == "e":
            return r.choice(["bT", "bF", '(bvariable "p")', '(bNOT (bvariable "q"))', '((bvariable "p") bAND (bvariable "q"))', '((bvariable "r") bXOR (bvariable "p"))'])
        if t == "v":
            return r.choice(["(int2bv (%d))" % r.choice(INT), '(bv_variable "v[3:0]")', '(bv_variable "v")', '(bv_uvariable "u[2:0]")', '(list2bv [T,F,variable "p"])', '(list2bv [T])', "(int2bv 0)"])
        if t == "w":
            return r.choice(["(int2bev (%d))" % r.choice(INT), '(bev_variable "v[3:0]")', '(bev_variable "v")', '(list2bev [bT,bF,bvariable "p"])', '(list2bev [bT])'])
        if t == "f":
            return r.choice(FLT)
        if t == "I":
            return "(set2iset [%s])" % ",".join(str(r.choice([0, 1, 2, 3, 31, 32, 63, 64, 65, 1000])) for _ in range(r.randint(0, 5)))
        if t == "n":
            return flstr(r.choice(self.nodes)) if r.random() < 0.7 else self.val("s", st, 1)
        if t == "N":
            return flstr(r.choice(["x", "x[3:0]", "x[0:5]", "x[1,3]", "x[2:1][1:0]", "", "x[", "\\e[1:0] ", "0b01", "x[3"]))
        if t == "p":
            return flstr(r.choice(["nofile", "f1", "f2", "f3", "", ".", "./f1", "no/such/f", "a" * 300, "d" * 5000, "f1.fl", "junk.fl"]))
        if t == "m":
            return flstr(r.choice(["r", "w", "a", "rw", "", "z", "r" * 300]))
        if t == "o":
            return flstr(r.choice(OPT))
        if t in "MPA":
            return "__%s%d" % (t, r.randrange(2))
        raise ValueError(t)

    def force(self, t, st):
        if isinstance(t, tuple):
            if t[0] == "L":
                return "(__fl %s)" % self.force(t[1], st)
            if t[0] in "<T":
                return "(%s %s %s)" % ("__fp" if t[0] == "<" else "__ft", self.force(t[1], st), self.force(t[2], st))
        return self.force(st, st) if t == "*" else "__f" + t


def alive(out):
    return "the interpreter died" if out[0] == "%" else None


FMT = ["%d", "%s", "%5d", "%-5d", "%05d", "%x", "%o", "%b", "%S", "%10s", "%-10s", "%%", "%08x", "%1000d", "%600s", "%-2000s", "%", "%s%s", "x", "\\n", "\\t", " "]


def printf(r, a):
    f, args = "", []
    for _ in range(r.randint(0, 6)):
        p = r.choice(FMT)
        f += p
        for c in re.findall(r"%[-0-9.]*([dsxXobcSBfe])", p):
            args.append(a.val({"d": "i", "x": "i", "X": "i", "o": "i", "b": "i", "B": r.choice("bv"), "c": "s", "s": "s", "S": ("L", "s"), "f": "f", "e": "f"}[c], "i"))
    if r.random() < 0.1:
        f += r.choice(["a" * 2000, "b" * 9000, "c" * 20000])
    lit = '"%s"' % f
    if r.random() < 0.6:
        return Case("sprintf", "__fs (sprintf %s %s)" % (lit, " ".join(args)), alive)
    if r.random() < 0.3:
        return Case("eprintf", "(eprintf %s %s)" % (lit, " ".join(args)), alive)
    n = len(re.findall(r"%[-0-9.]*([dsxXobcSBfe])", f))
    return Case("sscanf", "__fX (sscanf %s %s)" % (lit, a.val("s", "i")), alive)


TOK = re.compile(r'"(?:[^"\\]|\\.)*"|[A-Za-z_][A-Za-z_0-9\']*|\d+|/\\|\\|->|=>|[^\sA-Za-z0-9_"]+|\s+')
VOCAB = ["let", "letrec", "in", "val", "then", "lettype", "/\\", "\\", ".", "=>", "|", "->", "::", "(", ")", "[", "]", "{", "}", ",", ";", ":", "=", "==", "!=", "+", "-", "*", "/", "%", "'", "#", "@", "^", "catch", "gen_catch", "seq", "fseq",
         "AND", "OR", "NOT", "T", "F", "0", "1", "-1", "99999999999999999999", "0b1", "0x", '"s"', '""', '"', "'a", "infix", "infixr", "nonfix", "prefix", "free_infix", "binder", "overload", "open_overload", "forward_declare", "abstract", "typeabbrev", "new_type_abbrev", "concrete_type",
         "andlettype", "clet", "cletrec", "slet", "wval", "lambda", "if", "then", "else", "IF", "THEN", "ELSE", "install_print_function", "x", "f", "int", "string", "bool", "list", "**", "_", "!", "?", "&", "$", "~", "`", "\\x.", "(* ", "*)", "//", "/*", "*/", "\n", " ", "cache", "begin_abstype", "end_abstype", "defix", "print"]


def mutate(r, t, other):
    toks = TOK.findall(t)
    for _ in range(r.choice([1, 1, 1, 2, 3, 6])):
        if not toks:
            break
        i = r.randrange(len(toks))
        x = r.random()
        if x < 0.2:
            del toks[i]
        elif x < 0.3:
            toks.insert(i, toks[i])
        elif x < 0.5:
            toks[i] = r.choice(VOCAB)
        elif x < 0.65:
            toks.insert(i, r.choice(VOCAB))
        elif x < 0.75:
            j = r.randrange(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        elif x < 0.82:
            j = r.randrange(len(toks))
            i, j = min(i, j), min(max(i, j), i + 30)
            toks[i:i] = toks[i:j] * r.choice([1, 2, 20])
        elif x < 0.88:
            o = TOK.findall(other)
            j = r.randrange(len(o) or 1)
            toks[i:i + r.randint(0, 5)] = o[j:j + r.randint(1, 15)]
        elif x < 0.92:
            toks[i] = r.choice(["(", "[", "{", "\\x.", "NOT ", "- ", "let x = ", "[[", "1+", "(1,"]) * r.choice([10, 300, 3000])
        elif x < 0.94:
            toks[i] = r.choice(["a", "9", '"', " ", "'", "x'"]) * r.choice([40, 300, 1100, 5000, 70000])
        else:
            s = "".join(toks)
            k = r.randrange(len(s) + 1)
            y = r.random()
            if y < 0.3:
                s = s[:k]
            elif y < 0.6:
                s = s[:k] + "".join(chr(r.randrange(256)) for _ in range(r.randint(1, 4))) + s[k:]
            else:
                s = s[:k] + s[k + r.randint(1, 40):]
            toks = TOK.findall(s)
    return "".join(toks)


HAND = ['lettype t = A int | B {x::t list};\nlet f (A i) = i /\\ f (B l) = length l;\nf (B [A 1, B []]);\n',
        'open_overload foo;\nadd_open_overload foo (defix i_plus);\nlet z = foo 1 2;\n',
        'infix 5 +++;\nlet +++ a b = a + b;\n1 +++ 2 +++ 3;\nnonfix +++;\n',
        'let a = [1,2,3];\nmap (\\x. x*x) a;\nval (p,[q]) = (1,[2]);\nlet g {x::int} {y::string} = (sprintf "%d%s" x y);\ng 1 "a";\n',
        'begin_abstype;\nlettype q = Q int;\nlet mk x = Q x;\nend_abstype mk;\n',
        'cletrec fib n = n < 2 => n | (fib (n-1)) + (fib (n-2));\nfib 20;\n',
        'let v = variable "a"; let w = v AND (variable "b") OR NOT v; w; depends w; !a. v OR w; ?b. w;\n',
        'new_type_abbrev il = int list;\nlet h {x::il} = hd x;\nh [1];\n',
        'update_vossrc "PRINT-FAILURES" "YES";\nlet s = ref 0; s := 3; deref s;\n',
        '/* c /* nested */ */ // line\nlet x = "a\\tb\\"c\\\\";\nprint (x^"\\n");\n0xff; 0b101; -5; 12.5e3;\n']


def run(ctx):
    r = ctx.rng
    ctx.level = "exploration"
    ctx.rule = ("Calls of some 350 built-in functions with hostile arguments of the right types (sizes, counts and indices of every magnitude, empty, long, malformed and binary strings, symbolic values, degenerate lists, absent nodes and files); "
                "programs damaged by token and byte edits; saved files cut, flipped and overwritten; all under AddressSanitizer and UBSan. Non-trivial: a distinct call or text.")
    ctx.assumptions = ["calls that exhaust time or the stack of the machine are not judged", "errors inside a block of the record allocators are not seen by AddressSanitizer"]
    import ckt
    cs = []
    while len(cs) < 2:
        c = ckt.Circuit(random.Random(len(cs) + 5))
        c.build()
        cs.append(c)
    pre = PRE
    for i, c in enumerate(cs):
        pre += "let __P%d = %s;\nlet __M%d = pexlif2fsm __P%d;\nlet __A%d = STE \"\" __M%d [] [(T,\"%s\",variable \"p\",0,2)] [] [(\"%s\",0,3)] \"\";\n" % (
            i, c.text, i, i, i, i, c.allbits()[0], c.allbits()[-1])
    pre += "let __big = (((variable \"p\") XOR (variable \"q\")) AND (variable \"r\")) OR ((variable \"s\") AND NOT (variable \"p\"));\n"
    pre += 'let __pm = update_vossrc "PRINT-FAILURES" "NO";\n'
    a = Args(r, [n for c in cs for n in c.allbits()])
    env = {"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1:exitcode=77:abort_on_error=0:hard_rss_limit_mb=3000"}
    table = [s for s in sigs() if not s[0].endswith("_")]
    for _ in range(1):
        if not os.environ.get("C14SKIP"):
            files, dc = damaged(ctx, r, env, ctx.scale(200, 3000))
            ctx.run_cases(dc, prelude=PRE, chunk=40, timeout=20, variant="asan", env=env, files=files, judge=False)
            for c in dc:
                ctx.count("damaged files: " + {"=": "read", "!": "refused", "%": "deaths", "~": "timeouts", "#": "rejected"}[c.out[0]])
                if not resource(c.out):
                    ctx.judge(c, PRE + "\n// file: %r\n" % c.note)
    ps = list(programs(ctx, r, env, int(os.environ.get("C14P") or ctx.scale(300, 6000))))

    def load(ts):
        d = ctx.scratch()
        q = ""
        for k, t in enumerate(ts):
            with open("%s/m%d.fl" % (d, k), "wb") as fh:
                fh.write(t.encode("latin-1", "replace"))
            q += '((load "m%d.fl") fseq ()) gen_catch (\\m. fprintf stdout "\\n@LOADERR%d@\\n");\n' % (k, k)
        return ctx.fl(q + "quit;\n", "asan", 20, cwd=d, env=env)

    def some(ts):
        rc, out = load(ts)
        for t in ts:
            ctx.saw(t)
        if rc == 0:
            bad = len(set(re.findall(r"@LOADERR\d+@", out)))
            ctx.count("damaged programs: refused", bad)
            ctx.count("damaged programs: accepted", len(ts) - bad)
            return
        for t in ts:                     # which one of them was it?
            rc, out = load([t])
            k = "timeouts" if rc is None else "refused" if "@LOADERR" in out else "accepted"
            if rc not in (None, 0):
                k = "out of resources" if resource(out) else "deaths"
                if k == "deaths":
                    ctx.violation("program", "fl died on a damaged program: %s" % ctx._tail(rc, out), "// load this file\n" + t)
            ctx.count("damaged programs: " + k)

    ctx.pmap(some, [ps[i:i + 6] for i in range(0, len(ps), 6)])
    cases = []
    for _ in range(int(os.environ.get("C14N") or ctx.scale(1000, 30000))):
        if r.random() < 0.06:
            cases.append(printf(r, a))
            continue
        n, at, rt = r.choice(table)
        st = a.star()
        op = "%s" % n if re.match(r"\w", n) else n
        ar = [a.val(t, st) for t in at]
        if n in ("AND", "OR", "XOR", "XNOR", "bAND", "bOR", "bXOR", "intAND", "intOR", "intXOR", "union", "intersect", "subtract", "overlap", "choose", "iunion", "iintersect", "isubtract"):
            e = "%s %s %s" % (ar[0], n, ar[1])
        else:
            e = "%s %s" % (n, " ".join(ar))
        cases.append(Case(n, "(%s (%s)) fseq \"ok\"" % (a.force(rt, st), e), alive))
    seen = {}
    ctx.run_cases(cases, prelude=pre, chunk=50, timeout=8, variant="asan", env=env, judge=False)
    for c in cases:
        o = c.out
        k = {"=": "values", "!": "failures", "#": "rejected", "~": "timeouts", "%": "deaths"}[o[0]]
        ctx.count("calls: " + k)
        if o[0] == "#" and os.environ.get("VERIF_DEBUG"):
            print("REJECTED", c.expr[:300], o[:300])
        if o[0] == "~" and os.environ.get("VERIF_DEBUG"):
            print("TIMEOUT", c.expr[:300])
        c.trivial = o[0] == "#"
        if o[0] == "%" and resource(o):
            ctx.count("calls: out of resources")
            continue
        seen.setdefault(c.key, set()).add(o[0])
        ctx.judge(c, pre)
    ctx.count("functions called", len(seen))
    ctx.count("functions that gave a value", sum("=" in v for v in seen.values()))
    ctx.count("functions that failed on some arguments", sum("!" in v for v in seen.values()))


def programs(ctx, r, env, n):
    """Damaged programs, each loaded by an interpreter of its own."""
    texts = list(HAND)
    for k in range(30):
        g = lang.Gen(random.Random("%d/%d" % (ctx.seed, k)), "")
        for _ in range(4):
            g.top()
        texts.append("\n".join(g.text) + "\n")
    for k in range(n):
        t = mutate(r, r.choice(texts), r.choice(texts))
        yield t


def damaged(ctx, r, env, n):
    """Cut and altered saved files: {name: bytes}."""
    d = ctx.scratch()
    ctx.fl(PRE + '''let vs = map (\\i. variable (sprintf "v%d" i)) (1--12);
let f = itlist (\\v. \\a. (v XOR a) OR (NOT v AND (variable "z"))) vs F;
bdd_save "f" [f, NOT f, T, el 3 vs];
let es = map (\\i. bvariable (sprintf "v%d" i)) (1--12);
let e = itlist (\\v. \\a. (v bXOR a) bOR ((bNOT v) bAND (bvariable "z"))) es bF;
bexpr_save "e" [e, bNOT e, bT, el 3 es];
quit;\n''', "plain", 60, cwd=d)
    base = {"bdd_load": open(d + "/f", "rb").read(), "bexpr_load": open(d + "/e", "rb").read(),
            "import_ppm_image": b"P6\n# c\n3 2\n255\n" + bytes(range(18)),
            "import_xpm_image": b'/* XPM */\nstatic char *x[] = {\n"3 2 2 1",\n"a c #ff0000",\n"b c None",\n"aba",\n"bab"\n};\n'}
    files, cases = {}, []
    for i in range(n):
        op = r.choice(["bdd_load", "bdd_load", "bexpr_load", "bexpr_load", "import_ppm_image", "import_xpm_image"])
        b = bytearray(base[op])
        for _ in range(r.choice([1, 1, 2, 4])):
            x, k = r.random(), r.randrange(len(b) + 1)
            nums = [m.span() for m in re.finditer(rb"\d+", bytes(b))]
            if x < 0.2:
                b = b[:k]
            elif x < 0.4:
                b[k:k + r.randint(1, 30)] = b""
            elif x < 0.5:
                b[k:k] = bytes(r.randrange(256) for _ in range(r.randint(1, 5)))
            elif x < 0.85 and nums:
                s, e = r.choice(nums)
                b[s:e] = str(r.choice([0, 1, -1, 5, 100, 2000, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 64] + ([] if "image" in op else [65536, 1 << 20]))).encode()
            elif x < 0.92:
                ls = bytes(b).split(b"\n")
                q = r.randrange(len(ls))
                ls[q] = ls[q] * r.choice([0, 2, 500])
                b = bytearray(b"\n".join(ls))
            elif b:
                b[min(k, len(b) - 1)] ^= 1 << r.randrange(8)
        if bytes(b) == base[op]:
            continue
        files["d%d" % i] = bytes(b)
        cases.append(Case(op, "(%s (%s \"d%d\")) fseq \"ok\"" % ({"bdd_load": "__fl __fb", "bexpr_load": "__fl __fe"}.get(op, "__fX"), op, i), alive, note=bytes(b)))
    return files, cases


def resource(o):
    return "stack-overflow" in o or "rss limit" in o or "out of memory" in o.lower() or "allocation-size-too-big" in o


if __name__ == "__main__":
    main("C14", run)
