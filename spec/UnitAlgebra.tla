----------------------------- MODULE UnitAlgebra -----------------------------
(* What an expression over quantities with units means: its dimension and its value in base units.

   Values are kept as exact formal fractions of sums of monomials, because products of conversion
   factors do not fit into TLC's integers. A monomial is (product of f) / (product of g) * 10^e *
   pi^p. Whoever compares evaluates the result exactly.                                          *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES act
vars == <<act>>

(* length, mass, time, current, temperature, amount, luminosity, angle, solid angle *)
D(l, m, t, i, o, n, j, a, s) == <<l, m, t, i, o, n, j, a, s>>
None == D(0, 0, 0, 0, 0, 0, 0, 0, 0)
Length == D(1, 0, 0, 0, 0, 0, 0, 0, 0)
Mass == D(0, 1, 0, 0, 0, 0, 0, 0, 0)
Time == D(0, 0, 1, 0, 0, 0, 0, 0, 0)
Current == D(0, 0, 0, 1, 0, 0, 0, 0, 0)
Temperature == D(0, 0, 0, 0, 1, 0, 0, 0, 0)
Amount == D(0, 0, 0, 0, 0, 1, 0, 0, 0)
Luminosity == D(0, 0, 0, 0, 0, 0, 1, 0, 0)
Angle == D(0, 0, 0, 0, 0, 0, 0, 1, 0)
SolidAngle == D(0, 0, 0, 0, 0, 0, 0, 0, 1)
Plus(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3], a[4] + b[4], a[5] + b[5], a[6] + b[6], a[7] + b[7], a[8] + b[8], a[9] + b[9]>>
Minus(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3], a[4] - b[4], a[5] - b[5], a[6] - b[6], a[7] - b[7], a[8] - b[8], a[9] - b[9]>>
Velocity == Minus(Length, Time)
Area == Plus(Length, Length)
Force == Plus(Mass, Minus(Velocity, Time))
Energy == Plus(Force, Length)
Power == Minus(Energy, Time)
Voltage == Minus(Power, Current)
Charge == Plus(Current, Time)
Flux == Plus(Luminosity, SolidAngle)

Mono(f, g, e, p) == [f |-> f, g |-> g, e |-> e, p |-> p]
One == Mono(<<>>, <<>>, 0, 0)
U(dim, ratio) == [dim |-> dim, ratio |-> ratio, off |-> <<>>]
Dec(m, e) == Mono(<<m>>, <<>>, e, 0)
Unit == [
    Kilometer |-> U(Length, Dec(1, 3)), Meter |-> U(Length, One), Centimeter |-> U(Length, Dec(1, -2)),
    Millimeter |-> U(Length, Dec(1, -3)), Micrometer |-> U(Length, Dec(1, -6)), Nanometer |-> U(Length, Dec(1, -9)),
    AstronomicalUnit |-> U(Length, Dec(1495978707, 2)), Foot |-> U(Length, Dec(3048, -4)), Yard |-> U(Length, Dec(9144, -4)),
    Mile |-> U(Length, Dec(1609344, -3)),
    Kilogram |-> U(Mass, One), Gram |-> U(Mass, Dec(1, -3)), Milligram |-> U(Mass, Dec(1, -6)),
    SiderealDay |-> U(Time, Dec(861640905, -4)), Day |-> U(Time, Dec(86400, 0)), Hour |-> U(Time, Dec(3600, 0)),
    Minute |-> U(Time, Dec(60, 0)), Second |-> U(Time, One), Millisecond |-> U(Time, Dec(1, -3)),
    Microsecond |-> U(Time, Dec(1, -6)), Nanosecond |-> U(Time, Dec(1, -9)), Femtosecond |-> U(Time, Dec(1, -15)),
    Ampere |-> U(Current, One), Kelvin |-> U(Temperature, One),
    Celsius |-> [dim |-> Temperature, ratio |-> One, off |-> <<Dec(27315, -2)>>],
    Fahrenheit |-> [dim |-> Temperature, ratio |-> Mono(<<5>>, <<9>>, 0, 0), off |-> <<Mono(<<45967, 5>>, <<9>>, -2, 0)>>],
    Mole |-> U(Amount, One), Candela |-> U(Luminosity, One),
    Radian |-> U(Angle, One), Degree |-> U(Angle, Mono(<<>>, <<180>>, 0, 1)), Arcminute |-> U(Angle, Mono(<<>>, <<180, 60>>, 0, 1)),
    Arcsecond |-> U(Angle, Mono(<<>>, <<180, 3600>>, 0, 1)),
    Steradian |-> U(SolidAngle, One), SquareDegree |-> U(SolidAngle, Mono(<<>>, <<180, 180>>, 0, 2)),
    Diopter |-> U(Minus(None, Length), One), Millidiopter |-> U(Minus(None, Length), Dec(1, -3)), Microdiopter |-> U(Minus(None, Length), Dec(1, -6)),
    MetersPerSecond |-> U(Velocity, One), KilometersPerSecond |-> U(Velocity, Dec(1, 3)),
    MilesPerHour |-> U(Velocity, Mono(<<1609344>>, <<3600>>, -3, 0)), KilometersPerHour |-> U(Velocity, Mono(<<1000>>, <<3600>>, 0, 0)),
    RadiansPerSecond |-> U(Minus(Angle, Time), One), DegreesPerSecond |-> U(Minus(Angle, Time), Mono(<<>>, <<180>>, 0, 1)),
    Hertz |-> U(Minus(None, Time), One), Kilohertz |-> U(Minus(None, Time), Dec(1, 3)), Megahertz |-> U(Minus(None, Time), Dec(1, 6)),
    Gigahertz |-> U(Minus(None, Time), Dec(1, 9)), Terahertz |-> U(Minus(None, Time), Dec(1, 12)),
    Newton |-> U(Force, One), Kilonewton |-> U(Force, Dec(1, 3)), Pascal |-> U(Minus(Force, Area), One), Kilopascal |-> U(Minus(Force, Area), Dec(1, 3)),
    Joule |-> U(Energy, One), Kilojoule |-> U(Energy, Dec(1, 3)), Megajoule |-> U(Energy, Dec(1, 6)), ElectronVolt |-> U(Energy, Dec(1602176634, -28)),
    SquareMeter |-> U(Area, One), SquareCentimeter |-> U(Area, Dec(1, -4)), SquareMillimeter |-> U(Area, Dec(1, -6)),
    Milliwatt |-> U(Power, Dec(1, -3)), Watt |-> U(Power, One), Kilowatt |-> U(Power, Dec(1, 3)), Megawatt |-> U(Power, Dec(1, 6)), Gigawatt |-> U(Power, Dec(1, 9)),
    Coulomb |-> U(Charge, One), WattsPerMeterSquaredSteradian |-> U(Minus(Minus(Power, Area), SolidAngle), One),
    WattsPerMeterSquared |-> U(Minus(Power, Area), One), WattsPerSteradian |-> U(Minus(Power, SolidAngle), One), Lumen |-> U(Flux, One)]

(* What a number followed by a suffix is. *)
Literals == <<
    <<"_Km", "Kilometer">>, <<"_m", "Meter">>, <<"_cm", "Centimeter">>, <<"_mm", "Millimeter">>, <<"_um", "Micrometer">>,
    <<"_nm", "Nanometer">>, <<"_au", "AstronomicalUnit">>, <<"_ft", "Foot">>, <<"_yd", "Yard">>, <<"_mi", "Mile">>, <<"_Kg",
    "Kilogram">>, <<"_g", "Gram">>, <<"_mg", "Milligram">>, <<"_day", "Day">>, <<"_h", "Hour">>, <<"_min", "Minute">>,
    <<"_s", "Second">>, <<"_ms", "Millisecond">>, <<"_us", "Microsecond">>, <<"_ns", "Nanosecond">>, <<"_rad", "Radian">>,
    <<"_deg", "Degree">>, <<"_K", "Kelvin">>, <<"_C", "Celsius">>, <<"_F", "Fahrenheit">>, <<"_J", "Joule">>, <<"_KJ",
    "Kilojoule">>, <<"_eV", "ElectronVolt">>, <<"_m2", "SquareMeter">>, <<"_cm2", "SquareCentimeter">>, <<"_mm2",
    "SquareMillimeter">>, <<"_mW", "Milliwatt">>, <<"_W", "Watt">>, <<"_KW", "Kilowatt">>, <<"_MW", "Megawatt">>, <<"_dpt",
    "Diopter">>, <<"_mdpt", "Millidiopter">>, <<"_udpt", "Microdiopter">>, <<"_mps", "MetersPerSecond">>, <<"_Kmps",
    "KilometersPerSecond">>, <<"_Miph", "MilesPerHour">>, <<"_Kmph", "KilometersPerHour">>, <<"_radps",
    "RadiansPerSecond">>, <<"_degps", "DegreesPerSecond">>, <<"_Hz", "Hertz">>, <<"_KHz", "Kilohertz">>, <<"_MHz",
    "Megahertz">>, <<"_GHz", "Gigahertz">>>>

(* How the dimension is written, where it has a name of its own. *)
Named == <<
    <<"Hz", Minus(None, Time)>>, <<"N", Force>>, <<"Pa", Minus(Force, Area)>>, <<"J", Energy>>, <<"W", Power>>, <<"C", Charge>>,
    <<"V", Voltage>>, <<"F", Minus(Charge, Voltage)>>, <<"Ohm", Minus(Voltage, Current)>>, <<"lm", Flux>>,
    <<"lm / m^2", Minus(Flux, Area)>>, <<"W / m^2 sr", Minus(Minus(Power, Area), SolidAngle)>>, <<"W / m^2", Minus(Power, Area)>>,
    <<"W / sr", Minus(Power, SolidAngle)>>, <<"cd / m^2", Minus(Luminosity, Area)>>, <<"m", Length>>, <<"Kg", Mass>>, <<"s", Time>>,
    <<"A", Current>>, <<"K", Temperature>>, <<"mol", Amount>>, <<"cd", Luminosity>>, <<"rad", Angle>>, <<"sr", SolidAngle>>,
    <<"m / s", Velocity>>, <<"rad / s", Minus(Angle, Time)>>, <<"1 / m", Minus(None, Length)>>, <<"(m)^2", Area>>>>
Written(d) == IF d = None THEN "" ELSE IF \E i \in 1..Len(Named) : Named[i][2] = d THEN Named[CHOOSE i \in 1..Len(Named) : Named[i][2] = d][1] ELSE "?"

(* ---- arithmetic on formal fractions [n, d] of sums of monomials *)
MM(a, b) == Mono(a.f \o b.f, a.g \o b.g, a.e + b.e, a.p + b.p)
Inv(a) == Mono(a.g, a.f, -a.e, -a.p)
RECURSIVE Sum1(_, _)
Sum1(m, s) == IF s = <<>> THEN <<>> ELSE <<MM(m, Head(s))>> \o Sum1(m, Tail(s))
RECURSIVE PP(_, _)
PP(s, t) == IF s = <<>> THEN <<>> ELSE Sum1(Head(s), t) \o PP(Tail(s), t)
Fr(n, d) == [n |-> n, d |-> d]
Int2Fr(v, w) == Fr(<<Mono(<<v>>, <<w>>, 0, 0)>>, <<One>>)
FMul(a, b) == Fr(PP(a.n, b.n), PP(a.d, b.d))
FDiv(a, b) == Fr(PP(a.n, b.d), PP(a.d, b.n))
FAdd(a, b) == Fr(PP(a.n, b.d) \o PP(b.n, a.d), PP(a.d, b.d))
FNeg(a) == Fr(Sum1(Mono(<<-1>>, <<>>, 0, 0), a.n), a.d)
FScale(m, a) == Fr(Sum1(m, a.n), a.d)

ToBase(u, x) == LET v == FScale(Unit[u].ratio, x) IN IF Unit[u].off = <<>> THEN v ELSE FAdd(v, Fr(Unit[u].off, <<One>>))
FromBase(u, x) ==
    LET y == IF Unit[u].off = <<>> THEN x ELSE FAdd(x, FNeg(Fr(Unit[u].off, <<One>>))) IN FScale(Inv(Unit[u].ratio), y)

(* ---- expressions: every node yields its dimension and base value *)
RECURSIVE Eval(_)
Eval(x) ==
    CASE x.k = "q" -> [dim |-> Unit[x.u].dim, si |-> ToBase(x.u, Int2Fr(x.v, x.w))]
      [] x.k \in {"as", "as_type", "into", "assign"} ->
            LET a == Eval(x.a) IN IF Assert(a.dim = Unit[x.u].dim, <<"as", x.u>>) THEN a ELSE a
      [] x.k \in {"add", "add_eq"} -> LET a == Eval(x.a) b == Eval(x.b)
            IN [dim |-> IF Assert(a.dim = b.dim, "sum") THEN a.dim ELSE a.dim, si |-> FAdd(a.si, b.si)]
      [] x.k \in {"sub", "sub_eq"} -> LET a == Eval(x.a) b == Eval(x.b)
            IN [dim |-> IF Assert(a.dim = b.dim, "difference") THEN a.dim ELSE a.dim, si |-> FAdd(a.si, FNeg(b.si))]
      [] x.k = "mul" -> LET a == Eval(x.a) b == Eval(x.b) IN [dim |-> Plus(a.dim, b.dim), si |-> FMul(a.si, b.si)]
      [] x.k = "div" -> LET a == Eval(x.a) b == Eval(x.b) IN [dim |-> Minus(a.dim, b.dim), si |-> FDiv(a.si, b.si)]
      [] x.k = "neg" -> LET a == Eval(x.a) IN [a EXCEPT !.si = FNeg(a.si)]
      [] x.k \in {"times", "by", "times_eq"} -> LET a == Eval(x.a) IN [a EXCEPT !.si = FMul(Int2Fr(x.s, 4), a.si)]
      [] x.k \in {"over", "over_eq"} -> LET a == Eval(x.a) IN [a EXCEPT !.si = FDiv(a.si, Int2Fr(x.s, 4))]
      [] x.k = "under" -> LET a == Eval(x.a) IN [dim |-> Minus(None, a.dim), si |-> FDiv(Int2Fr(x.s, 4), a.si)]

Init == act = [op |-> "init"]
Table == act' = [op |-> "table", res |-> [units |-> Unit, literals |-> Literals]]
(* unit: the unit the result has to be counted in, or "" *)
Value(x, unit) ==
    LET r == Eval(x) IN
    act' = [op |-> "value", x |-> x, unit |-> unit,
            res |-> [dim |-> r.dim, si |-> r.si, written |-> Written(r.dim),
                     counted |-> IF unit = "" THEN <<>> ELSE <<FromBase(unit, r.si)>>]]
Compare(x, y) ==
    LET a == Eval(x) b == Eval(y)
    IN act' = [op |-> "compare", x |-> x, y |-> y, res |-> IF Assert(a.dim = b.dim, "compare") THEN [a |-> a.si, b |-> b.si] ELSE 0]
(* kind: what is tried with a quantity of the left and one of the right expression. Only quantities
   of one dimension can be added, subtracted, compared, assigned or converted into each other.   *)
Accept(x, y, kind) ==
    act' = [op |-> "accept", x |-> x, y |-> y, kind |-> kind,
            res |-> IF kind = "number" THEN Eval(x).dim = None ELSE Eval(x).dim = Eval(y).dim]
(* A not-a-number cannot be put into a quantity or come out of its arithmetic. *)
Nan(u, how) == act' = [op |-> "nan", u |-> u, how |-> how, res |-> "rejected"]
Literal(i, v, w) ==
    act' = [op |-> "literal", i |-> i, v |-> v, w |-> w, suffix |-> Literals[i][1], unit |-> Literals[i][2],
            res |-> LET u == Literals[i][2] IN [dim |-> Unit[u].dim, si |-> ToBase(u, Int2Fr(v, w))]]
Obs == <<>>

(* ---- checked on every evaluated step *)
DimensionsClosed == act.op = "value" => \A i \in 1..9 : act.res.dim[i] \in -12..12
===============================================================================
