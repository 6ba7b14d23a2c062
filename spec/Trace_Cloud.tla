----------------------------- MODULE Trace_Cloud -----------------------------
(* Loading of the recordings of a dataset against PointCloud (C21).           *)
EXTENDS TraceKit, PointCloud

Has(c, file) == \E k \in DOMAIN c.blobs : c.blobs[k].path = file
BlobOf(c, file) == c.blobs[CHOOSE k \in DOMAIN c.blobs : c.blobs[k].path = file]

(* Files of n bytes that repeat b (whole points), recorded in the same way.  *)
LongFailures(b, n, o) ==
  Failing("C21.raw" :> (o.raw.st = "ok" /\ o.raw.bytes = b /\ o.raw.len = n /\ o.raw.period = n)
          @@ "C21.open" :> o.open
          @@ "C21.points" :> (n % RecordSize = 0 => /\ o.cloud.st = "ok" /\ o.cloud.rows = Points(b)
                                                    /\ o.cloud.len = n \div RecordSize
                                                    /\ o.cloud.period = o.cloud.len)
          @@ "C21.rejects" :> (n % RecordSize # 0 => o.cloud.st = "err"))

(* Pictures: width, height, channels and the pixels row by row; none where    *)
(* the file is damaged.                                                       *)
PictureFailures(c, sd, o) ==
  IF ~Has(c, sd.file) THEN
    Failing("C21.missingRaw" :> (o.raw.st = "err") @@ "C21.missing" :> (o.cloud.st = "err") @@ "C21.openMissing" :> ~o.open)
  ELSE LET blob == BlobOf(c, sd.file) IN
    Failing("C21.raw" :> (o.raw.st = "ok" /\ o.raw.bytes = blob.bytes)
            @@ "C21.open" :> o.open
            @@ "C21.picture" :> (blob.img # <<>> => o.cloud.st = "image" /\ o.cloud.img = blob.img)
            @@ "C21.damaged" :> (blob.img = <<>> => o.cloud.st = "err"))

RecordingFailures(c, sd, o) ==
  IF sd.pic THEN PictureFailures(c, sd, o) ELSE
  IF ~Has(c, sd.file) THEN
    Failing("C21.missingRaw" :> (o.raw.st = "err") @@ "C21.missing" :> (o.cloud.st = "err") @@ "C21.openMissing" :> ~o.open)
  ELSE LET blob == BlobOf(c, sd.file)  b == blob.bytes IN
    IF "len" \in DOMAIN blob THEN LongFailures(b, blob.len, o) ELSE
    Failing("C21.raw" :> (o.raw.st = "ok" /\ o.raw.bytes = b)
            @@ "C21.open" :> o.open
            @@ "C21.points" :> (Valid(b) => /\ o.cloud.st = "ok" /\ o.cloud.bits = b
                                            /\ c.odd \/ o.cloud.rows = Points(b))
            @@ "C21.rejects" :> (Len(b) % RecordSize # 0 => o.cloud.st = "err"))

Failures(r) ==
  IF r.st # "ok" THEN {"completes"}
  ELSE UNION {RecordingFailures(r.c, r.c.sds[k], r.o.out[CHOOSE j \in DOMAIN r.o.out : r.o.out[j].t = r.c.sds[k].t]) : k \in DOMAIN r.c.sds}

VARIABLE i
TraceInit == i = 1
Call == /\ i <= Len(Trace)
        /\ Report(Trace[i], Failures(Trace[i]))
        /\ i' = i + 1
End == i = Len(Trace) + 1 /\ Finished(Len(Trace)) /\ i' = i + 1
TraceSpec == TraceInit /\ [][Call \/ End]_i
=============================================================================
