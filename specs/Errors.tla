------------------------------- MODULE Errors --------------------------------
(* Errors on their way.  An error is a tree [k: kind, s: its texts and numbers,  *)
(* c: inner errors].  It is raised by one task and handed on, through operators  *)
(* and over the boundaries between tasks, until the client gets it.  Whatever    *)
(* the way, what is seen is the error that was raised: same kind, same content.  *)
EXTENDS Naturals, Sequences, FiniteSets

IoKinds == {"NotFound", "PermissionDenied", "ConnectionRefused", "ConnectionReset", "HostUnreachable",
            "NetworkUnreachable", "ConnectionAborted", "NotConnected", "AddrInUse", "AddrNotAvailable",
            "NetworkDown", "BrokenPipe", "AlreadyExists", "WouldBlock", "NotADirectory", "IsADirectory",
            "DirectoryNotEmpty", "ReadOnlyFilesystem", "StaleNetworkFileHandle", "InvalidInput", "InvalidData",
            "TimedOut", "WriteZero", "StorageFull", "NotSeekable", "QuotaExceeded", "FileTooLarge",
            "ResourceBusy", "ExecutableFileBusy", "Deadlock", "CrossesDevices", "TooManyLinks",
            "InvalidFilename", "ArgumentListTooLong", "Interrupted", "Unsupported", "UnexpectedEof",
            "OutOfMemory", "Other"}
Plain   == {"NotImplemented", "Internal", "Plan", "Configuration", "Execution", "ResourcesExhausted",
            "External", "Substrait", "Ffi"}
Arrow   == {"NotYetImplemented", "ExternalError", "CastError", "MemoryError", "ParseError", "SchemaError",
            "ComputeError", "ArithmeticOverflow", "CsvError", "JsonError", "IpcError", "InvalidArgumentError",
            "ParquetError", "CDataInterface", "AvroError", "DivideByZero", "DictionaryKeyOverflowError",
            "RunEndIndexOverflowError", "OffsetOverflowError"}
Parquet == {"General", "NYI", "EOF", "ArrowError", "External", "IndexOutOfBound", "NeedMoreData"}
Sql     == {"TokenizerError", "ParserError", "RecursionLimitExceeded"}
Schema  == {"AmbiguousReference", "DuplicateQualifiedField", "DuplicateUnqualifiedField", "FieldNotFound"}
Store   == {"NotFound", "AlreadyExists", "Precondition", "NotModified", "NotImplemented", "PermissionDenied",
            "Unauthenticated", "Generic", "UnknownConfigurationKey", "NotSupported", "InvalidPath"}

Leaves == Plain \cup {"Io." \o k : k \in IoKinds} \cup {"ArrowIo." \o k : k \in IoKinds} \cup {"Arrow." \o k : k \in Arrow}
          \cup {"Parquet." \o k : k \in Parquet} \cup {"Sql." \o k : k \in Sql} \cup {"Schema." \o k : k \in Schema} \cup {"Store." \o k : k \in Store}
Wrappers == {"Context", "Collection", "Diagnostic", "Shared"}

(* What an error says.  Sharing is a matter of ownership; an error that crossed a *)
(* language boundary is an external one; an invalid path cannot be built again   *)
(* from a text, and arrives as the store's error with this text.                 *)
RECURSIVE Norm(_)
Norm(e) ==
    CASE e.k = "Shared" -> Norm(e.c[1])
      [] e.k = "Ffi" -> [k |-> "External", s |-> e.s, c |-> <<>>]
      [] e.k = "Store.InvalidPath" -> [k |-> "Store.Generic", s |-> <<"unknown", "InvalidPath: Path \"" \o e.s[1] \o "\" contained empty path segment">>, c |-> <<>>]
      [] e.k = "Store.Generic" /\ e.s[1] = "Unknown" -> [k |-> e.k, s |-> <<"unknown", e.s[2]>>, c |-> <<>>]
      [] OTHER -> [k |-> e.k, s |-> e.s, c |-> [i \in DOMAIN e.c |-> Norm(e.c[i])]]

Same(a, b) == Norm(a) = Norm(b)

(* An error too long for the headers of a response ("long") may arrive as an       *)
(* execution error with the beginning of its text ("Beginning" of raised[of]).    *)
(* A history: raised, the errors raised by the tasks; seen, the errors seen above *)
(* the boundaries; got, what the client got ("rows", "hang" or an error).         *)
Judge(t) ==
    LET ok(e) == IF e.k = "Beginning" THEN t.raised[e.of].long ELSE \E j \in DOMAIN t.raised : Same(t.raised[j], e)
        bad == {j \in DOMAIN t.seen : ~ok(t.seen[j].e)}
        first == CHOOSE j \in bad : \A m \in bad : j <= m
    IN  IF bad # {} THEN "another error was seen at " \o t.seen[first].at
        ELSE IF t.raised = <<>> THEN IF t.got = "rows" THEN "ok" ELSE "no task failed and the query ended with " \o t.got
        ELSE IF t.got # "error" THEN "the client got " \o t.got \o " from tasks that failed"
        ELSE IF ~ok(t.error) THEN "the client got another error" ELSE "ok"
===============================================================================
