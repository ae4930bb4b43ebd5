------------------------------ MODULE Decodes ------------------------------
(***************************************************************************)
(* The code tables that go with the messages: what each code of a field     *)
(* means, looked up by the value as a parsed message gives it, and the      *)
(* numbers and letters of the protocol constants.                           *)
(***************************************************************************)
EXTENDS Text, Integers, Sequences, FiniteSets, TLC

\* GGA quality (integers)
Quality == <<"NO FIX", "2D", "3D", "N/A", "RTK FIXED", "RTK FLOAT", "DR ONLY">>
QualityOf(k) == IF k \in 0..(Len(Quality) - 1) THEN Quality[k + 1] ELSE "-"
\* GNSS codes (integers)
GnssList == <<"GPS", "SBAS", "Galileo", "BeiDou", "IMES", "QZSS", "GLONASS", "NAVIC">>
GnssOf(k) == IF k \in 0..(Len(GnssList) - 1) THEN GnssList[k + 1] ELSE "-"

\* position mode letters, system ids, (system id, signal id)
PosModeOf(k) ==
  CASE k = "A" -> "2D"
    [] k = "N" -> "N/A"
    [] k = "E" -> "DR"
    [] k = "D" -> "3D"
    [] k = "F" -> "RTK FLOAT"
    [] k = "R" -> "RTK FIXED"
    [] OTHER -> "-"
SystemOf(k) ==
  CASE k = "1" -> "GPS"
    [] k = "2" -> "GLONASS"
    [] k = "3" -> "Galileo"
    [] k = "4" -> "Beidou"
    [] k = "5" -> "QZSS"
    [] k = "6" -> "NavIC"
    [] OTHER -> "-"
SignalOf(k) ==
  CASE k = <<"1", "1">> -> "GPS L1C/A2"
    [] k = <<"1", "6">> -> "GPS L2 CL"
    [] k = <<"1", "5">> -> "GPS L2 CM"
    [] k = <<"1", "7">> -> "GPS L5 I"
    [] k = <<"1", "8">> -> "GPS L5 Q"
    [] k = <<"3", "7">> -> "Galileo E1 B2/C2"
    [] k = <<"3", "1">> -> "Galileo E5 aI/aQ"
    [] k = <<"3", "2">> -> "Galileo E5 bI/bQ"
    [] k = <<"4", "1">> -> "BeiDou B1I D12/D22"
    [] k = <<"4", "B">> -> "BeiDou B2I D1/D2"
    [] k = <<"4", "3">> -> "BeiDou B1 Cp/Cd"
    [] k = <<"4", "5">> -> "BeiDou B2 ap/ad"
    [] k = <<"5", "1">> -> "QZSS L1C/A2"
    [] k = <<"5", "4">> -> "QZSS L1S"
    [] k = <<"5", "5">> -> "QZSS L2 CM"
    [] k = <<"5", "6">> -> "QZSS L2 CL"
    [] k = <<"5", "7">> -> "QZSS L5 I"
    [] k = <<"5", "8">> -> "QZSS L5 Q"
    [] k = <<"2", "1">> -> "GLONASS L1 OF"
    [] k = <<"2", "3">> -> "GLONASS L2 OF"
    [] k = <<"6", "1">> -> "NavIC L5 A"
    [] OTHER -> "-"
\* status word of the FMI message: bit number, name, description
FmiBits == <<
  <<0, "Finit", "Filter uninitialized flag">>,
  <<1, "Ready", "Filter convergence completion flag">>,
  <<2, "Inaccurate", "Filter convergence is in process">>,
  <<3, "TiltReject", "Tilt angle over threshold">>,
  <<4, "GnssReject", "RTK data poor quality">>,
  <<5, "FReset", "Filter reset flag">>,
  <<6, "FixRlsStage1", "Installation angle estimation stage 1">>,
  <<7, "FixRlsStage2", "Installation angle estimation stage 2">>,
  <<8, "FixRlsStage3", "Installation angle estimation stage 3">>,
  <<9, "FixRlsStage4", "Installation angle estimation stage 4">>,
  <<10, "FixRlsOK", "Installation angle estimation complete">>,
  <<13, "Direction1", "Shake RTK pole to initialize direction 1">>,
  <<14, "Direction2", "Shake RTK pole to initialize direction 2">>,
  <<16, "GnssLost", "Invalid RTK data or RTK data missing">>,
  <<17, "FInitOk", "Filter initialization completed">>,
  <<18, "PPSReady", "PPS signal detected">>,
  <<19, "SyncReady", "Module time synchronized with PPS">>,
  <<20, "GnssConnect", "Serial connection with RTK established">> >>
HexDigitOf(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE c - 87
\* is bit b set in the hexadecimal text t?
BitSet(t, b) == LET k == b \div 4  n == Len(t) IN k < n /\ (HexDigitOf(t[n - k]) \div <<1, 2, 4, 8>>[(b % 4) + 1]) % 2 = 1
FmiOf(t) == {<<FmiBits[i][2], FmiBits[i][3]>> : i \in {j \in DOMAIN FmiBits : BitSet(t, FmiBits[j][1])}}
\* no two flags share a bit or a name
ASSUME \A i, j \in DOMAIN FmiBits : i # j => FmiBits[i][1] # FmiBits[j][1] /\ FmiBits[i][2] # FmiBits[j][2]

\* protocol constants
NumberOf(k) ==
  CASE k \in {"GET", "OUTPUT", "DEF_STND", "VALNONE", "ERR_IGNORE", "ENCODE_NONE"} -> 0
    [] k \in {"SET", "INPUT", "DEF_PROP", "VALCKSUM", "ERR_LOG", "NMEA_PROTOCOL", "ENCODE_CHUNKED"} -> 1
    [] k \in {"POLL", "DEF_USER", "VALMSGID", "ERR_RAISE", "UBX_PROTOCOL", "ENCODE_GZIP"} -> 2
    [] k \in {"SETPOLL", "DEF_UNKN"} -> 3
    [] k \in {"RTCM3_PROTOCOL", "ENCODE_COMPRESS"} -> 4
    [] k \in {"ENCODE_DEFLATE"} -> 8
    [] k \in {"DEFAULT_BUFSIZE"} -> 4096
LetterOf(k) ==
  CASE k \in {"CH", "DE", "DT", "DTL", "DM", "HX", "IN", "LA", "LAD", "LN", "LND", "QS", "ST", "TM"} -> k   \* field type codes
    [] k = "GPS" -> "G"
    [] k = "GLO" -> "R"
    [] k = "GAL" -> "E"
    [] k = "BDS" -> "C"
    [] k = "QZS" -> "J"
    [] k = "IRN" -> "I"
    [] k = "SBA" -> "S"
    [] k = "WGS84" -> "WGS_84"
    \* numbers and instants, in writing: the ellipsoid and the epochs of the time systems
    [] k = "WGS84_SMAJ_AXIS" -> "6378137.0"
    [] k = "WGS84_FLATTENING" -> "298.257223563"
    [] k \in {"EPOCH0_GPS", "GPSEPOCH0"} -> "1980-01-06 00:00:00+00:00"
    [] k = "EPOCH0_BEIDOU" -> "2006-01-01 00:00:00+00:00"
    [] k \in {"EPOCH0_GAL", "EPOCH0_IRN"} -> "1999-08-22 00:00:00+00:00"

Meaning(e) ==
  CASE e.t = "quality" -> QualityOf(e.k)
    [] e.t = "gnss"    -> GnssOf(e.k)
    [] e.t = "posmode" -> PosModeOf(e.k)
    [] e.t = "system"  -> SystemOf(e.k)
    [] e.t = "signal"  -> SignalOf(e.k)
    [] e.t = "number"  -> NumberOf(e.k)
    [] e.t = "letters" -> LetterOf(e.k)
    [] e.t = "fmi"     -> FmiOf(e.k)
DecodeOK(e) == IF e.t = "fmi" THEN e.kind = "ok" /\ {e.r[i] : i \in DOMAIN e.r} = Meaning(e) /\ Len(e.r) = Cardinality(Meaning(e))
               ELSE e.kind = "ok" /\ e.r = Meaning(e)
=============================================================================
