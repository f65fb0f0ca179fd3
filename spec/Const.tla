---- MODULE Const ----
(* Physical constants, units and the periodic table (C48).
   A unit is a potential: the logarithm of its value in SI units (times 10^6), so that a factor between two units is a difference of potentials
   and a chain of conversions depends on its two ends only. State: the quantity being converted, [unit, ln : logarithm of its value]. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Pot == [J |-> 0,
        eV |-> -43277754,
        Ha |-> -39974118,
        Ry |-> -40667266,
        rcm |-> -52273110,
        Hz |-> -76396881,
        m |-> 0,
        Ang |-> -23025851,
        Bohr |-> -23662283,
        s |-> 0,
        fs |-> -34538776,
        ps |-> -27631021,
        tHa |-> -38260640,
        tRy |-> -37567493,
        kg |-> 0,
        amu |-> -61662655,
        me |-> -69170833,
        Pa |-> 0,
        GPa |-> 20723266,
        eVA3 |-> 25799799,
        N |-> 0,
        dyn |-> -11512925]
Dim == [J |-> "E", eV |-> "E", Ha |-> "E", Ry |-> "E", rcm |-> "E", Hz |-> "E", m |-> "L", Ang |-> "L", Bohr |-> "L", s |-> "T", fs |-> "T", ps |-> "T", tHa |-> "T", tRy |-> "T", kg |-> "M", amu |-> "M", me |-> "M", Pa |-> "P", GPa |-> "P", eVA3 |-> "P", N |-> "F", dyn |-> "F"]
\* a constant of the module as a conversion <<from, to>>
Edge == [eV |-> <<"eV", "J">>,
         e0 |-> <<"eV", "J">>,
         Eh |-> <<"Ha", "J">>,
         Ha |-> <<"Ha", "J">>,
         Hartree |-> <<"Ha", "J">>,
         Eryd |-> <<"Ry", "J">>,
         Ry |-> <<"Ry", "J">>,
         Rydberg |-> <<"Ry", "J">>,
         h |-> <<"Hz", "J">>,
         hplanck |-> <<"Hz", "J">>,
         Ry_to_eV |-> <<"Ry", "eV">>,
         Ry_to_Ha |-> <<"Ry", "Ha">>,
         Ha_to_eV |-> <<"Ha", "eV">>,
         J_to_eV |-> <<"J", "eV">>,
         Ry_to_J |-> <<"Ry", "J">>,
         J_to_rcm |-> <<"J", "rcm">>,
         Ry_to_rcm |-> <<"Ry", "rcm">>,
         rcm_to_Hz |-> <<"rcm", "Hz">>,
         Ry_to_Hz |-> <<"Ry", "Hz">>,
         a0 |-> <<"Bohr", "m">>,
         Bohr |-> <<"Bohr", "m">>,
         a0_to_A |-> <<"Bohr", "Ang">>,
         Bohr_to_Ang |-> <<"Bohr", "Ang">>,
         Ang |-> <<"Ang", "m">>,
         Angstrom |-> <<"Ang", "m">>,
         fs |-> <<"fs", "s">>,
         ps |-> <<"ps", "s">>,
         th |-> <<"tHa", "s">>,
         thart |-> <<"tHa", "s">>,
         tryd |-> <<"tRy", "s">>,
         amu |-> <<"amu", "kg">>,
         m0 |-> <<"me", "kg">>,
         GPa |-> <<"GPa", "Pa">>,
         eV_by_Ang3_to_Pa |-> <<"eVA3", "Pa">>,
         eV_by_Ang3_to_GPa |-> <<"eVA3", "GPa">>,
         dyn |-> <<"dyn", "N">>]
\* fundamental constants (CODATA 2006)
Fund == [h |-> -76396881, hbar |-> -78234759, m0 |-> -69170833, e0 |-> -43277754, c0 |-> 19518601, a0 |-> -23662283, Eh |-> -39974118, kb |-> -52636902, avo |-> 54754900, amu |-> -61662655, R |-> 2117998, alpha |-> -4920244, mu0 |-> -13587071, eps0 |-> -25450131, th |-> -38260640, tryd |-> -37567493]
\* all constants as <<digits, exponent>>: the first nine digits
Digits == [eV |-> <<160217649, -19>>, e0 |-> <<160217649, -19>>, Eh |-> <<435974394, -18>>, Ha |-> <<435974394, -18>>, Hartree |-> <<435974394, -18>>,
           Eryd |-> <<217987197, -18>>, Ry |-> <<217987197, -18>>, Rydberg |-> <<217987197, -18>>, h |-> <<662606896, -34>>, hplanck |-> <<662606896, -34>>,
           Ry_to_eV |-> <<136056919, 1>>, Ry_to_Ha |-> <<500000000, -1>>, Ha_to_eV |-> <<272113839, 1>>, J_to_eV |-> <<624150965, 18>>, Ry_to_J |-> <<217987197, -18>>,
           J_to_rcm |-> <<503411747, 22>>, Ry_to_rcm |-> <<109737316, 5>>, rcm_to_Hz |-> <<299792458, 10>>, Ry_to_Hz |-> <<328984196, 15>>, a0 |-> <<529177209, -11>>,
           Bohr |-> <<529177209, -11>>, a0_to_A |-> <<529177209, -1>>, Bohr_to_Ang |-> <<529177209, -1>>, Ang |-> <<100000000, -10>>, Angstrom |-> <<100000000, -10>>,
           fs |-> <<100000000, -15>>, ps |-> <<100000000, -12>>, th |-> <<241888433, -17>>, thart |-> <<241888433, -17>>, tryd |-> <<483776865, -17>>,
           amu |-> <<166053878, -27>>, m0 |-> <<910938215, -31>>, GPa |-> <<100000000, 9>>, eV_by_Ang3_to_Pa |-> <<160217649, 11>>, eV_by_Ang3_to_GPa |-> <<160217649, 2>>,
           dyn |-> <<100000000, -5>>, hbar |-> <<105457163, -34>>, c0 |-> <<299792458, 8>>, kb |-> <<138065040, -23>>, avo |-> <<602214179, 23>>,
           R |-> <<831447200, 0>>, alpha |-> <<729735257, -3>>, mu0 |-> <<125663706, -6>>, eps0 |-> <<885418782, -12>>]
\* relations between logarithms which hold in nature: sum of coefficient * constant = value
Ln4Pi == 2531024
Relations == <<
  [n |-> "hbar = h / 2 pi", c |-> <<<<"hbar", 1>>, <<"h", -1>>>>, v |-> -1837877],
  [n |-> "Eh = hbar^2 / (m0 a0^2)", c |-> <<<<"Eh", 1>>, <<"hbar", -2>>, <<"m0", 1>>, <<"a0", 2>>>>, v |-> 0],
  [n |-> "alpha", c |-> <<<<"alpha", 1>>, <<"e0", -2>>, <<"eps0", 1>>, <<"hbar", 1>>, <<"c0", 1>>>>, v |-> -Ln4Pi],
  [n |-> "eps0 mu0 c0^2 = 1", c |-> <<<<"eps0", 1>>, <<"mu0", 1>>, <<"c0", 2>>>>, v |-> 0],
  [n |-> "R = kb avo", c |-> <<<<"R", 1>>, <<"kb", -1>>, <<"avo", -1>>>>, v |-> 0],
  [n |-> "th = hbar / Eh", c |-> <<<<"th", 1>>, <<"hbar", -1>>, <<"Eh", 1>>>>, v |-> 0],
  [n |-> "tryd = 2 th", c |-> <<<<"tryd", 1>>, <<"th", -1>>>>, v |-> 693147],
  [n |-> "amu avo = 1 g", c |-> <<<<"amu", 1>>, <<"avo", 1>>>>, v |-> -6907755]>>
\* symbol, mass in 1/1000 amu, covalent radius in 1/100 Angstrom (-100: unknown), for the elements 1, 2, ...
Elements == <<<<"H", 1008, 31>>, <<"He", 4003, 28>>, <<"Li", 6940, 128>>, <<"Be", 9012, 96>>, <<"B", 10810, 84>>, <<"C", 12011, 76>>,
  <<"N", 14007, 71>>, <<"O", 15999, 66>>, <<"F", 18998, 57>>, <<"Ne", 20180, 58>>, <<"Na", 22990, 166>>, <<"Mg", 24305, 141>>,
  <<"Al", 26982, 121>>, <<"Si", 28085, 111>>, <<"P", 30974, 107>>, <<"S", 32060, 105>>, <<"Cl", 35450, 102>>, <<"Ar", 39948, 106>>,
  <<"K", 39098, 203>>, <<"Ca", 40078, 176>>, <<"Sc", 44956, 170>>, <<"Ti", 47867, 160>>, <<"V", 50942, 153>>, <<"Cr", 51996, 139>>,
  <<"Mn", 54938, 139>>, <<"Fe", 55845, 132>>, <<"Co", 58933, 126>>, <<"Ni", 58693, 124>>, <<"Cu", 63546, 132>>, <<"Zn", 65380, 122>>,
  <<"Ga", 69723, 122>>, <<"Ge", 72630, 120>>, <<"As", 74922, 119>>, <<"Se", 78971, 120>>, <<"Br", 79904, 120>>, <<"Kr", 83798, 116>>,
  <<"Rb", 85468, 220>>, <<"Sr", 87620, 195>>, <<"Y", 88906, 190>>, <<"Zr", 91224, 175>>, <<"Nb", 92906, 164>>, <<"Mo", 95950, 154>>,
  <<"Tc", 97907, 147>>, <<"Ru", 101070, 146>>, <<"Rh", 102906, 142>>, <<"Pd", 106420, 139>>, <<"Ag", 107868, 145>>, <<"Cd", 112414, 144>>,
  <<"In", 114818, 142>>, <<"Sn", 118710, 139>>, <<"Sb", 121760, 139>>, <<"Te", 127600, 138>>, <<"I", 126904, 139>>, <<"Xe", 131293, 140>>,
  <<"Cs", 132905, 244>>, <<"Ba", 137327, 215>>, <<"La", 138905, 207>>, <<"Ce", 140116, 204>>, <<"Pr", 140908, 203>>, <<"Nd", 144242, 201>>,
  <<"Pm", 144913, 199>>, <<"Sm", 150360, 198>>, <<"Eu", 151964, 198>>, <<"Gd", 157250, 196>>, <<"Tb", 158925, 194>>, <<"Dy", 162500, 192>>,
  <<"Ho", 164930, 192>>, <<"Er", 167259, 189>>, <<"Tm", 168934, 190>>, <<"Yb", 173054, 187>>, <<"Lu", 174967, 187>>, <<"Hf", 178490, 175>>,
  <<"Ta", 180948, 170>>, <<"W", 183840, 162>>, <<"Re", 186207, 151>>, <<"Os", 190230, 144>>, <<"Ir", 192217, 141>>, <<"Pt", 195084, 136>>,
  <<"Au", 196967, 136>>, <<"Hg", 200592, 132>>, <<"Tl", 204380, 145>>, <<"Pb", 207200, 146>>, <<"Bi", 208980, 148>>, <<"Po", 208982, 140>>,
  <<"At", 209987, 150>>, <<"Rn", 222018, 150>>, <<"Fr", 223020, 260>>, <<"Ra", 226025, 221>>, <<"Ac", 227028, 215>>, <<"Th", 232038, 206>>,
  <<"Pa", 231036, 200>>, <<"U", 238029, 196>>, <<"Np", 237048, 190>>, <<"Pu", 244064, 187>>, <<"Am", 243061, 180>>, <<"Cm", 247070, 169>>,
  <<"Bk", 247000, -100>>, <<"Cf", 251000, -100>>, <<"Es", 252000, -100>>, <<"Fm", 257000, -100>>, <<"Md", 258000, -100>>, <<"No", 259000, -100>>, <<"Lr", 262000, -100>>, <<"Rf", 267000, -100>>, 
  <<"Db", 268000, -100>>, <<"Sg", 271000, -100>>, <<"Bh", 271000, -100>>, <<"Hs", 270000, -100>>, <<"Mt", 277000, -100>>, <<"Ds", 281000, -100>>, <<"Rg", 281000, -100>>, <<"Uub", 285000, -100>>, <<"Uut", 285000, -100>>, <<"Uuq", 289000, -100>>, <<"Uup", 289000, -100>>, <<"Uuh", 293000, -100>>, <<"Uus", 294000, -100>>, <<"Uuo", 294000, -100>>>>

\* no stable isotope: tables give the mass (or mass number) of one isotope
Radioactive == {43, 61} \cup 84 .. 118
InitSt(hdr) == hdr
\* one step of a conversion: along the constant, or against it
Target(e, inv) == IF inv THEN Edge[e][1] ELSE Edge[e][2]
Source(e, inv) == IF inv THEN Edge[e][2] ELSE Edge[e][1]
Factor(e, inv) == Pot[Source(e, inv)] - Pot[Target(e, inv)]
Post(st, ev) == IF ev.op = "convert" THEN [unit |-> Target(ev.e, ev.inv), ln |-> st.ln + Factor(ev.e, ev.inv)] ELSE st

RECURSIVE SumOf(_, _, _)
SumOf(val, c, n) == IF n = 0 THEN 0 ELSE (val[c[n][1]] * c[n][2]) + SumOf(val, c, n - 1)
Bad(st, ev) ==
  CASE ev.op = "convert" -> IF ev.exc = "" /\ Abs(ev.ln - Post(st, ev).ln) <= 3 + ev.no THEN {} ELSE {"C48:conversion_" \o ev.e}
    [] ev.op = "funds" -> (IF ev.exc = "" THEN {} ELSE {"C48:constants_missing"})
         \cup (IF ev.exc # "" THEN {} ELSE
               {"C48:constant_" \o k : k \in {q \in DOMAIN Fund : Abs(ev.val[q] - Fund[q]) > 1}}
          \cup {"C48:digits_" \o k : k \in {q \in DOMAIN Digits : ev.dig[q][2] # Digits[q][2] \/ Abs(ev.dig[q][1] - Digits[q][1]) > 2}}
          \cup {"C48:relation: " \o Relations[i].n : i \in {j \in DOMAIN Relations : Abs(SumOf(ev.val, Relations[j].c, Len(Relations[j].c)) - Relations[j].v) > 5}})
    [] ev.op = "tables" -> IF ev.exc = "" /\ ev.lens = <<Len(Elements) + 1, Len(Elements) + 1, Len(Elements) + 1>> /\ ev.names = Len(Elements) + 1 THEN {} ELSE {"C48:table_sizes"}
    [] ev.op = "element" ->
         IF ev.exc # "" THEN {"C48:element_missing"}
         ELSE (IF ev.sym = ev.back /\ ev.z = ev.number /\ ev.number2 = ev.z THEN {} ELSE {"C48:element_number"})
         \cup (IF ev.same THEN {} ELSE {"C48:tables_differ"})
         \cup (IF ev.z > Len(Elements) THEN {} ELSE
               LET w == Elements[ev.z] IN
               (IF ev.sym = w[1] THEN {} ELSE {"C48:element_symbol"})
          \cup (IF Abs(ev.mass - w[2]) * 5000 <= w[2] + 5000 \/ (ev.z \in Radioactive /\ Abs(ev.mass - w[2]) <= 3100) THEN {} ELSE {"C48:element_mass"})
          \cup (IF ev.rad = w[3] THEN {} ELSE {"C48:element_radius"}))
    [] OTHER -> {"C48:crash"}
====
