----------------------------- MODULE Gen_Records -----------------------------
(* For every table a plain record and every record that differs from it in    *)
(* one field: over the critical values of the field's kind (all spellings of  *)
(* the enumerations), without the field, and with null in it.                 *)
EXTENDS Records, Json, IOUtils, SequencesExt

Good == {"00000000000000000000000000000000", "ffffffffffffffffffffffffffffffff",
         "ABCDEF0123456789ABCDEF0123456789", "0f1e2d3c4b5a69788796a5b4c3d2e1f0", "0F1e2D3c4B5a69788796A5b4C3d2E1f0"}
Bad == {"", " ", "0", "0f1e2d3c4b5a69788796a5b4c3d2e1f", "0f1e2d3c4b5a69788796a5b4c3d2e1f00",
        "0f1e2d3c4b5a69788796a5b4c3d2e1", "0f1e2d3c4b5a69788796a5b4c3d2e1f0ab",
        "0f1e2d3c4b5a69788796a5b4c3d2e1g0", "0x1e2d3c4b5a69788796a5b4c3d2e1f0", " f1e2d3c4b5a69788796a5b4c3d2e1f0",
        "0f1e2d3c4b5a69788796a5b4c3d2e1f0 ", "0f1e2d3c-4b5a-6978-8796-a5b4c3d2e1",
        "0f1e2d3c4b5a69788796a5b4c3d2e1f00f1e2d3c4b5a69788796a5b4c3d2e1f0"}
Texts == {"", "a", "b c", "none", "v0-40", "null", "../x", "/abs/p.bin", "q\"q", "a\\b", "tab\tx"}
Times == {<<0, 0, 0>>, <<0, 0, 1>>, <<0, 0, 999999>>, <<0, 86399, 999999>>, <<1, 0, 0>>,
          <<17649, 43261, 1>>, <<17649, 43261, 999>>, <<17649, 43261, 1000>>, <<17649, 43261, 123457>>, <<17649, 43261, 999999>>,
          <<24855, 11647, 999999>>, <<24855, 11648, 0>>, <<47480, 86399, 999999>>, <<47481, 1, 500001>>}
Rows == <<<<8, 0, 1>>, <<0, 16, -3>>, <<0, 0, 8>>>>
Plain(kind) ==
  CASE kind = "token" -> "0123456789abcdef0123456789abcdef"
    [] kind = "tokens" -> <<>>
    [] kind = "link" -> ""
    [] kind = "file" -> "1"
    [] kind = "text" -> "text"
    [] kind = "matrix" -> <<>>
    [] kind = "time" -> <<17649, 43200, 0>>
    [] kind = "count" -> 1
    [] kind = "flag" -> TRUE
    [] kind = "n3" -> <<8, 1, -16>>
    [] kind = "n4" -> <<8, 0, 1, -16>>
    [] kind = "format" -> "png"
    [] kind = "modality" -> "radar"
    [] kind = "level" -> "most"
    [] kind = "channel" -> "CAM_BACK"
Values(kind) ==
  CASE kind = "token" -> Good \cup Bad
    [] kind = "tokens" -> {<<>>} \cup {<<g>> : g \in Good} \cup {<<b>> : b \in Bad}
                          \cup {<<g, h>> : g, h \in Good} \cup {<<g, b>> : g \in Good, b \in {"", "zz"}}
    [] kind = "link" -> Good \cup Bad
    [] kind = "file" -> Texts
    [] kind = "text" -> Texts
    [] kind = "matrix" -> {<<>>, Rows, <<Rows[1]>>, <<Rows[1], Rows[2]>>, Rows \o Rows, Rows \o <<Rows[1]>>, <<<<8, 0>>, <<0, 8>>>>,
                           <<<<8, 0>>, <<0, 8>>, <<0, 0>>>>, <<<<>>, <<>>, <<>>>>, <<<<8, 0, 0, 0>>, <<0, 8, 0, 0>>, <<0, 0, 8, 0>>>>}
    [] kind = "time" -> Times
    [] kind = "count" -> {0, 1, 2, 77, 100000}
    [] kind = "flag" -> {TRUE, FALSE}
    [] kind = "n3" -> {<<0, 0, 0>>, <<-1, 1, 800000>>, <<1, 2, 3>>, <<>>, <<1>>, <<1, 2>>, <<1, 2, 3, 4>>, <<1, 2, 3, 4, 5, 6>>}
    [] kind = "n4" -> {<<0, 0, 0, 0>>, <<-1, 1, 800000, 5>>, <<1, 2, 3, 4>>, <<>>, <<1>>, <<1, 2>>, <<1, 2, 3>>, <<1, 2, 3, 4, 5>>}
    [] IsEnum(kind) -> DOMAIN EnumOf(kind) \cup {"", "unknown", "Bin", "BIN", "LIDAR", "v0-41", "cam_front", "CAM_FRONT ", "LIDAR_TOP2"}
Base(table) == [f \in DOMAIN Schema[table] |-> Plain(Schema[table][f])]
Dates == {"", "2018-08-01", "1970-01-01", "2099-12-31", "2020-02-29"}
ValuesOf(table, f) == IF f = "date_captured" THEN Dates ELSE Values(Schema[table][f])
With(table, f, v) == [g \in DOMAIN Schema[table] |-> IF g = f THEN v ELSE IF g = "date_captured" THEN "" ELSE Base(table)[g]]
Without(table, f) == [g \in (DOMAIN Schema[table]) \ {f} |-> IF g = "date_captured" THEN "" ELSE Base(table)[g]]
Cases == UNION {UNION {{[table |-> t, w |-> With(t, f, v), nulls |-> <<>>] : v \in ValuesOf(t, f)}
                       \cup {[table |-> t, w |-> Without(t, f), nulls |-> <<>>],
                             [table |-> t, w |-> With(t, f, IF f = "date_captured" THEN "" ELSE Base(t)[f]), nulls |-> <<f>>]}
                       : f \in DOMAIN Schema[t]} : t \in DOMAIN Schema}
VARIABLE done
Init == done = ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
Spec == Init /\ [][UNCHANGED done]_done
=============================================================================
