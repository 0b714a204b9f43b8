//! Errors from JSON and back, for the specification Errors: {"k": kind, "s": [texts], "c": [inner errors]}.
//! An optional text is "" or "+text".
use datafusion::arrow::error::ArrowError;
use datafusion::common::{Column, DataFusionError, Diagnostic, SchemaError, TableReference};
use datafusion::logical_expr::sqlparser::parser::ParserError;
use datafusion::parquet::errors::ParquetError;
use object_store::Error as StoreError;
use serde_json::{Value, json};
use std::io::{Error as IoError, ErrorKind};
use std::sync::Arc;

macro_rules! kinds { ($($k:ident),*) => { const KINDS: &[ErrorKind] = &[$(ErrorKind::$k),*]; } }
kinds!(NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, HostUnreachable, NetworkUnreachable, ConnectionAborted, NotConnected, AddrInUse,
    AddrNotAvailable, NetworkDown, BrokenPipe, AlreadyExists, WouldBlock, NotADirectory, IsADirectory, DirectoryNotEmpty, ReadOnlyFilesystem, StaleNetworkFileHandle,
    InvalidInput, InvalidData, TimedOut, WriteZero, StorageFull, NotSeekable, QuotaExceeded, FileTooLarge, ResourceBusy, ExecutableFileBusy, Deadlock, CrossesDevices,
    TooManyLinks, InvalidFilename, ArgumentListTooLong, Interrupted, Unsupported, UnexpectedEof, OutOfMemory, Other);
fn kind(s: &str) -> ErrorKind { *KINDS.iter().find(|k| format!("{k:?}") == s).unwrap() }
const STORES: &[&str] = &["S3", "GCS", "MicrosoftAzure", "HTTP", "InMemory", "LocalFileSystem", "Config", "unknown"];
fn store(s: &str) -> &'static str { STORES.iter().find(|x| **x == s).unwrap() }
fn opt(s: &str) -> Option<String> { s.strip_prefix('+').map(|x| x.to_string()) }
fn unopt(s: &Option<String>) -> String { s.as_ref().map(|x| format!("+{x}")).unwrap_or_default() }
fn boxed(s: &str) -> Box<dyn std::error::Error + Send + Sync> { s.to_string().into() }

/// A reference is "table", "schema|table" or "catalog|schema|table"; a column is "reference>name" or ">name".
fn table(s: &str) -> TableReference {
    let p: Vec<&str> = s.split('|').collect();
    match p.len() { 1 => TableReference::bare(p[0]), 2 => TableReference::partial(p[0], p[1]), _ => TableReference::full(p[0], p[1], p[2]) }
}
fn untable(t: &TableReference) -> String {
    match t { TableReference::Bare { table } => table.to_string(), TableReference::Partial { schema, table } => format!("{schema}|{table}"), TableReference::Full { catalog, schema, table } => format!("{catalog}|{schema}|{table}") }
}
fn column(s: &str) -> Column { let (r, n) = s.split_once('>').unwrap(); Column::new((!r.is_empty()).then(|| table(r)), n) }
fn uncolumn(c: &Column) -> String { format!("{}>{}", c.relation.as_ref().map(untable).unwrap_or_default(), c.name) }

/// The error that a script names: a JSON object, or else the message of an execution error.
pub fn of(m: &str) -> DataFusionError {
    if !m.starts_with('{') { return DataFusionError::Execution(m.to_string()); }
    build(&serde_json::from_str(m).unwrap())
}

pub fn build(v: &Value) -> DataFusionError {
    use DataFusionError as D;
    let s: Vec<String> = v["s"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default();
    let t = |i: usize| s[i].clone();
    let n = |i: usize| s[i].parse::<usize>().unwrap();
    let kids = || v["c"].as_array().unwrap().iter().map(build).collect::<Vec<_>>();
    let one = || Box::new(build(&v["c"][0]));
    let k = v["k"].as_str().unwrap();
    let (g, x) = k.split_once('.').unwrap_or(("", k));
    let arrow = |e: ArrowError, o: usize| D::ArrowError(Box::new(e), opt(&s[o]));
    let schema = |e: SchemaError, o: usize| D::SchemaError(Box::new(e), Box::new(opt(&s[o])));
    match (g, x) {
        ("", "NotImplemented") => D::NotImplemented(t(0)), ("", "Internal") => D::Internal(t(0)), ("", "Plan") => D::Plan(t(0)),
        ("", "Configuration") => D::Configuration(t(0)), ("", "Execution") => D::Execution(t(0)), ("", "ResourcesExhausted") => D::ResourcesExhausted(t(0)),
        ("", "External") => D::External(boxed(&s[0])), ("", "Substrait") => D::Substrait(t(0)), ("", "Ffi") => D::Ffi(t(0)),
        ("", "Context") => D::Context(t(0), one()), ("", "Collection") => D::Collection(kids()), ("", "Shared") => D::Shared(Arc::new(*one())),
        ("", "Diagnostic") => D::Diagnostic(Box::new(Diagnostic::new_error("here", None)), one()),
        ("Io", k) => D::IoError(IoError::new(kind(k), t(0))),
        ("ArrowIo", k) => arrow(ArrowError::IoError(t(0), IoError::new(kind(k), t(1))), 2),
        ("Arrow", "NotYetImplemented") => arrow(ArrowError::NotYetImplemented(t(0)), 1), ("Arrow", "ExternalError") => arrow(ArrowError::ExternalError(boxed(&s[0])), 1),
        ("Arrow", "CastError") => arrow(ArrowError::CastError(t(0)), 1), ("Arrow", "MemoryError") => arrow(ArrowError::MemoryError(t(0)), 1),
        ("Arrow", "ParseError") => arrow(ArrowError::ParseError(t(0)), 1), ("Arrow", "SchemaError") => arrow(ArrowError::SchemaError(t(0)), 1),
        ("Arrow", "ComputeError") => arrow(ArrowError::ComputeError(t(0)), 1), ("Arrow", "DivideByZero") => arrow(ArrowError::DivideByZero, 1),
        ("Arrow", "ArithmeticOverflow") => arrow(ArrowError::ArithmeticOverflow(t(0)), 1), ("Arrow", "CsvError") => arrow(ArrowError::CsvError(t(0)), 1),
        ("Arrow", "JsonError") => arrow(ArrowError::JsonError(t(0)), 1), ("Arrow", "IpcError") => arrow(ArrowError::IpcError(t(0)), 1),
        ("Arrow", "InvalidArgumentError") => arrow(ArrowError::InvalidArgumentError(t(0)), 1), ("Arrow", "ParquetError") => arrow(ArrowError::ParquetError(t(0)), 1),
        ("Arrow", "CDataInterface") => arrow(ArrowError::CDataInterface(t(0)), 1), ("Arrow", "DictionaryKeyOverflowError") => arrow(ArrowError::DictionaryKeyOverflowError, 1),
        ("Arrow", "RunEndIndexOverflowError") => arrow(ArrowError::RunEndIndexOverflowError, 1), ("Arrow", "OffsetOverflowError") => arrow(ArrowError::OffsetOverflowError(n(0)), 1),
        ("Arrow", "AvroError") => arrow(ArrowError::AvroError(t(0)), 1),
        ("Parquet", p) => D::ParquetError(Box::new(match p {
            "General" => ParquetError::General(t(0)), "NYI" => ParquetError::NYI(t(0)), "EOF" => ParquetError::EOF(t(0)), "ArrowError" => ParquetError::ArrowError(t(0)),
            "IndexOutOfBound" => ParquetError::IndexOutOfBound(n(0), n(1)), "External" => ParquetError::External(boxed(&s[0])), _ => ParquetError::NeedMoreData(n(0)),
        })),
        ("Sql", p) => D::SQL(Box::new(match p {
            "TokenizerError" => ParserError::TokenizerError(t(0)), "ParserError" => ParserError::ParserError(t(0)), _ => ParserError::RecursionLimitExceeded,
        }), opt(&s[1])),
        ("Schema", "AmbiguousReference") => schema(SchemaError::AmbiguousReference { field: Box::new(column(&s[0])) }, 1),
        ("Schema", "DuplicateQualifiedField") => schema(SchemaError::DuplicateQualifiedField { qualifier: Box::new(table(&s[0])), name: t(1) }, 2),
        ("Schema", "DuplicateUnqualifiedField") => schema(SchemaError::DuplicateUnqualifiedField { name: t(0) }, 1),
        ("Schema", _) => schema(SchemaError::FieldNotFound { field: Box::new(column(&s[0])), valid_fields: s[1..s.len() - 1].iter().map(|x| column(x)).collect() }, s.len() - 1),
        ("Store", p) => D::ObjectStore(Box::new(match p {
            "Generic" => StoreError::Generic { store: store(&s[0]), source: boxed(&s[1]) }, "NotFound" => StoreError::NotFound { path: t(0), source: boxed(&s[1]) },
            "NotSupported" => StoreError::NotSupported { source: boxed(&s[0]) }, "AlreadyExists" => StoreError::AlreadyExists { path: t(0), source: boxed(&s[1]) },
            "Precondition" => StoreError::Precondition { path: t(0), source: boxed(&s[1]) }, "NotModified" => StoreError::NotModified { path: t(0), source: boxed(&s[1]) },
            "NotImplemented" => StoreError::NotImplemented { operation: t(0), implementer: t(1) }, "PermissionDenied" => StoreError::PermissionDenied { path: t(0), source: boxed(&s[1]) },
            "Unauthenticated" => StoreError::Unauthenticated { path: t(0), source: boxed(&s[1]) }, "InvalidPath" => StoreError::InvalidPath { source: object_store::path::Error::EmptySegment { path: t(0) } },
            _ => StoreError::UnknownConfigurationKey { store: store(&s[0]), key: t(1) },
        })),
        _ => panic!("unknown error {k}"),
    }
}

pub fn show(e: &DataFusionError) -> Value {
    use DataFusionError as D;
    let r = |k: &str, s: Vec<String>| json!({"k": k, "s": s, "c": []});
    let w = |k: &str, s: Vec<String>, c: Vec<Value>| json!({"k": k, "s": s, "c": c});
    match e {
        D::NotImplemented(m) => r("NotImplemented", vec![m.clone()]), D::Internal(m) => r("Internal", vec![m.clone()]), D::Plan(m) => r("Plan", vec![m.clone()]),
        D::Configuration(m) => r("Configuration", vec![m.clone()]), D::Execution(m) => r("Execution", vec![m.clone()]), D::ResourcesExhausted(m) => r("ResourcesExhausted", vec![m.clone()]),
        D::External(x) => r("External", vec![x.to_string()]), D::Substrait(m) => r("Substrait", vec![m.clone()]), D::Ffi(m) => r("Ffi", vec![m.clone()]),
        D::Context(m, x) => w("Context", vec![m.clone()], vec![show(x)]), D::Collection(x) => w("Collection", vec![], x.iter().map(show).collect()),
        D::Shared(x) => w("Shared", vec![], vec![show(x)]), D::Diagnostic(_, x) => w("Diagnostic", vec![], vec![show(x)]),
        D::IoError(x) => r(&format!("Io.{:?}", x.kind()), vec![x.to_string()]),
        D::ArrowError(a, c) => {
            let c = unopt(c);
            match a.as_ref() {
                ArrowError::IoError(m, x) => r(&format!("ArrowIo.{:?}", x.kind()), vec![m.clone(), x.to_string(), c]),
                ArrowError::DivideByZero => r("Arrow.DivideByZero", vec!["".into(), c]), ArrowError::DictionaryKeyOverflowError => r("Arrow.DictionaryKeyOverflowError", vec!["".into(), c]),
                ArrowError::RunEndIndexOverflowError => r("Arrow.RunEndIndexOverflowError", vec!["".into(), c]), ArrowError::OffsetOverflowError(n) => r("Arrow.OffsetOverflowError", vec![n.to_string(), c]),
                ArrowError::ExternalError(x) => r("Arrow.ExternalError", vec![x.to_string(), c]),
                ArrowError::NotYetImplemented(m) | ArrowError::CastError(m) | ArrowError::MemoryError(m) | ArrowError::ParseError(m) | ArrowError::SchemaError(m) | ArrowError::ComputeError(m)
                | ArrowError::ArithmeticOverflow(m) | ArrowError::CsvError(m) | ArrowError::JsonError(m) | ArrowError::IpcError(m) | ArrowError::InvalidArgumentError(m) | ArrowError::ParquetError(m)
                | ArrowError::CDataInterface(m) | ArrowError::AvroError(m) => r(&format!("Arrow.{}", name(&format!("{a:?}"))), vec![m.clone(), c]),
            }
        }
        D::ParquetError(p) => match p.as_ref() {
            ParquetError::IndexOutOfBound(a, b) => r("Parquet.IndexOutOfBound", vec![a.to_string(), b.to_string()]), ParquetError::NeedMoreData(a) => r("Parquet.NeedMoreData", vec![a.to_string()]),
            ParquetError::External(x) => r("Parquet.External", vec![x.to_string()]),
            ParquetError::General(m) | ParquetError::NYI(m) | ParquetError::EOF(m) | ParquetError::ArrowError(m) => r(&format!("Parquet.{}", name(&format!("{p:?}"))), vec![m.clone()]),
            x => r("Parquet.?", vec![x.to_string()]),
        },
        D::SQL(p, b) => match p.as_ref() {
            ParserError::TokenizerError(m) => r("Sql.TokenizerError", vec![m.clone(), unopt(b)]), ParserError::ParserError(m) => r("Sql.ParserError", vec![m.clone(), unopt(b)]),
            ParserError::RecursionLimitExceeded => r("Sql.RecursionLimitExceeded", vec!["".into(), unopt(b)]),
        },
        D::SchemaError(x, b) => {
            let b = unopt(b);
            match x.as_ref() {
                SchemaError::AmbiguousReference { field } => r("Schema.AmbiguousReference", vec![uncolumn(field), b]),
                SchemaError::DuplicateQualifiedField { qualifier, name } => r("Schema.DuplicateQualifiedField", vec![untable(qualifier), name.clone(), b]),
                SchemaError::DuplicateUnqualifiedField { name } => r("Schema.DuplicateUnqualifiedField", vec![name.clone(), b]),
                SchemaError::FieldNotFound { field, valid_fields } => r("Schema.FieldNotFound", std::iter::once(uncolumn(field)).chain(valid_fields.iter().map(uncolumn)).chain([b]).collect()),
            }
        }
        D::ObjectStore(x) => match x.as_ref() {
            StoreError::Generic { store, source } => r("Store.Generic", vec![store.to_string(), source.to_string()]),
            StoreError::NotFound { path, source } => r("Store.NotFound", vec![path.clone(), source.to_string()]), StoreError::NotSupported { source } => r("Store.NotSupported", vec![source.to_string()]),
            StoreError::AlreadyExists { path, source } => r("Store.AlreadyExists", vec![path.clone(), source.to_string()]),
            StoreError::Precondition { path, source } => r("Store.Precondition", vec![path.clone(), source.to_string()]),
            StoreError::NotModified { path, source } => r("Store.NotModified", vec![path.clone(), source.to_string()]),
            StoreError::NotImplemented { operation, implementer } => r("Store.NotImplemented", vec![operation.clone(), implementer.clone()]),
            StoreError::PermissionDenied { path, source } => r("Store.PermissionDenied", vec![path.clone(), source.to_string()]),
            StoreError::Unauthenticated { path, source } => r("Store.Unauthenticated", vec![path.clone(), source.to_string()]),
            StoreError::UnknownConfigurationKey { store, key } => r("Store.UnknownConfigurationKey", vec![store.to_string(), key.clone()]),
            StoreError::InvalidPath { source: object_store::path::Error::EmptySegment { path } } => r("Store.InvalidPath", vec![path.clone()]),
            x => r("Store.?", vec![x.to_string()]),
        },
        x => r("?", vec![x.to_string()]),
    }
}
/// The variant's name in a debug text.
fn name(d: &str) -> String { d.chars().take_while(|c| c.is_alphanumeric()).collect() }
