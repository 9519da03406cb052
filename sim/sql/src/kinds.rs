//! What is done with diesel, for one string type.

use diesel::prelude::*;
use diesel::sql_types::{Integer, Nullable, Text};
use diesel::sqlite::SqliteConnection;

pub type Row = (i32, Option<Vec<u8>>);
pub struct SqlKind {
    pub name: &'static str,
    pub cap: usize,
    pub put: fn(&mut SqliteConnection, u8, i32, &str, &str) -> QueryResult<usize>,
    pub get: fn(&mut SqliteConnection, u8, i32) -> QueryResult<Vec<Row>>,
    pub all: fn(&mut SqliteConnection, u8, &mut dyn FnMut(Row)) -> QueryResult<()>,
    pub find: fn(&mut SqliteConnection, u8, &str, &str) -> QueryResult<Vec<i32>>,
    pub call: fn(&mut SqliteConnection, &str, &str, bool) -> QueryResult<Row>,
    pub encode: fn(&str, &str, bool) -> Result<Vec<Option<Vec<u8>>>, String>,
    pub decode: fn(&[u8], bool) -> Result<Vec<u8>, String>,
}
pub const PUTS: u8 = 9;
pub const GETS: u8 = 6;

diesel::table! {
    t (id) {
        id -> Integer,
        v -> Nullable<Text>,
    }
}
diesel::define_sql_function! {
    fn echo(x: Nullable<Text>) -> Nullable<Text>;
}

/// Postgres types need no lookup here.
pub struct Nothing;
impl diesel::pg::PgMetadataLookup for Nothing {
    fn lookup_type(&mut self, _: &str, _: Option<&str>) -> diesel::pg::PgTypeMetadata {
        diesel::pg::PgTypeMetadata::new(25, 1009)
    }
}

#[macro_export]
macro_rules! sql_kind {
    ($m:ident, $name:expr, $ty:ty, $cap:expr, |$past:ident, $text:ident| $make:expr) => {
        pub mod $m {
            use super::*;
            type T = $ty;
            fn make($past: &str, $text: &str) -> T {
                let s: T = $make;
                if AsRef::<[u8]>::as_ref(&s) != $text.as_bytes() {
                    dstcore::ctx::ctx().unmade = true;
                }
                s
            }
            #[derive(Insertable, AsChangeset, Queryable, Selectable, Identifiable)]
            #[diesel(table_name = t)]
            struct Full {
                id: i32,
                v: Option<T>,
            }
            #[derive(Insertable, AsChangeset)]
            #[diesel(table_name = t)]
            struct Borrowed<'a> {
                id: i32,
                v: &'a T,
            }
            #[derive(QueryableByName)]
            struct Named {
                #[diesel(sql_type = Integer)]
                id: i32,
                #[diesel(sql_type = Nullable<Text>)]
                v: Option<T>,
            }
            fn bytes(v: T) -> Vec<u8> {
                AsRef::<[u8]>::as_ref(&v).to_vec()
            }
            fn row(r: (i32, Option<T>)) -> Row {
                (r.0, r.1.map(bytes))
            }
            fn put(c: &mut SqliteConnection, via: u8, i: i32, text: &str, past: &str) -> QueryResult<usize> {
                let s = make(past, text);
                match via % PUTS {
                    0 => diesel::replace_into(t::table).values((t::id.eq(i), t::v.eq(s))).execute(c),
                    1 => diesel::sql_query("REPLACE INTO t (id, v) VALUES (?, ?)")
                        .bind::<Integer, _>(i)
                        .bind::<Text, _>(s)
                        .execute(c),
                    2 => diesel::replace_into(t::table).values(&Full { id: i, v: Some(s) }).execute(c),
                    3 => diesel::replace_into(t::table).values(&Borrowed { id: i, v: &s }).execute(c),
                    4 => diesel::update(t::table.find(i)).set(t::v.eq(Some(s))).execute(c),
                    5 => diesel::update(t::table.find(i)).set(&Borrowed { id: i, v: &s }).execute(c),
                    // the same in two rows
                    6 => diesel::replace_into(t::table)
                        .values(&vec![Full { id: i, v: Some(s.clone()) }, Full { id: i + 1, v: Some(s) }])
                        .execute(c),
                    7 => diesel::insert_into(t::table).values(Full { id: i, v: Some(s) }).execute(c),
                    _ => diesel::sql_query("REPLACE INTO t (id, v) VALUES (?, ?)")
                        .bind::<Integer, _>(i)
                        .bind::<Nullable<Text>, _>(Some(&s))
                        .execute(c),
                }
            }
            fn get(c: &mut SqliteConnection, via: u8, i: i32) -> QueryResult<Vec<Row>> {
                match via % GETS {
                    0 => Ok(t::table.find(i).load::<(i32, Option<T>)>(c)?.into_iter().map(row).collect()),
                    1 => Ok(t::table
                        .find(i)
                        .select((t::id, t::v.assume_not_null()))
                        .load::<(i32, T)>(c)?
                        .into_iter()
                        .map(|r| row((r.0, Some(r.1))))
                        .collect()),
                    2 => Ok(diesel::sql_query("SELECT id, v FROM t WHERE id = ?")
                        .bind::<Integer, _>(i)
                        .load::<Named>(c)?
                        .into_iter()
                        .map(|r| row((r.id, r.v)))
                        .collect()),
                    3 => Ok(t::table
                        .find(i)
                        .select(Full::as_select())
                        .first(c)
                        .optional()?
                        .into_iter()
                        .map(|r| row((r.id, r.v)))
                        .collect()),
                    4 => Ok(t::table
                        .filter(t::id.eq(i))
                        .select(t::v)
                        .get_results::<Option<T>>(c)?
                        .into_iter()
                        .map(|v| row((i, v)))
                        .collect()),
                    // the same value twice in a row
                    _ => {
                        let mut out = vec![];
                        for (a, b) in t::table.find(i).select((t::v, t::v)).load::<(Option<T>, Option<T>)>(c)? {
                            if a != b {
                                return Err(diesel::result::Error::DeserializationError("differ".into()));
                            }
                            out.push(row((i, a)));
                        }
                        Ok(out)
                    }
                }
            }
            fn all(c: &mut SqliteConnection, via: u8, f: &mut dyn FnMut(Row)) -> QueryResult<()> {
                match via % 3 {
                    0 => {
                        for r in t::table.order(t::id).load_iter::<(i32, Option<T>), diesel::connection::DefaultLoadingMode>(c)? {
                            f(row(r?));
                        }
                    }
                    1 => {
                        for r in t::table.order(t::id).load::<Full>(c)? {
                            f(row((r.id, r.v)));
                        }
                    }
                    _ => {
                        for r in diesel::sql_query("SELECT id, v FROM t ORDER BY id").load::<Named>(c)? {
                            f(row((r.id, r.v)));
                        }
                    }
                }
                Ok(())
            }
            fn find(c: &mut SqliteConnection, via: u8, text: &str, past: &str) -> QueryResult<Vec<i32>> {
                let s = make(past, text);
                let q = t::table.select(t::id).order(t::id);
                match via % 4 {
                    0 => q.filter(t::v.eq(s)).load(c),
                    1 => q.filter(t::v.eq(&s)).load(c),
                    2 => q.filter(t::v.eq_any(vec![s.clone(), s])).load(c),
                    _ => q.filter(t::v.ge(&s).and(t::v.le(Some(&s)))).load(c),
                }
            }
            fn call(c: &mut SqliteConnection, text: &str, past: &str, null: bool) -> QueryResult<Row> {
                echo_utils::register_impl(c, |x: Option<T>| x)?;
                let s = (!null).then(|| make(past, text));
                let v = diesel::select(echo(s)).get_result::<Option<T>>(c)?;
                Ok(row((0, v)))
            }
            fn encode(text: &str, past: &str, my: bool) -> Result<Vec<Option<Vec<u8>>>, String> {
                use diesel::query_builder::bind_collector::RawBytesBindCollector;
                use diesel::query_builder::BindCollector;
                let s = make(past, text);
                let n = Some(&s);
                if my {
                    let mut b = RawBytesBindCollector::<diesel::mysql::Mysql>::new();
                    b.push_bound_value::<Text, T>(&s, &mut ()).map_err(|e| e.to_string())?;
                    b.push_bound_value::<Nullable<Text>, _>(&n, &mut ()).map_err(|e| e.to_string())?;
                    b.push_bound_value::<Nullable<Text>, _>(&None::<T>, &mut ()).map_err(|e| e.to_string())?;
                    Ok(b.binds)
                } else {
                    let mut b = RawBytesBindCollector::<diesel::pg::Pg>::new();
                    b.push_bound_value::<Text, T>(&s, &mut Nothing).map_err(|e| e.to_string())?;
                    b.push_bound_value::<Nullable<Text>, _>(&n, &mut Nothing).map_err(|e| e.to_string())?;
                    b.push_bound_value::<Nullable<Text>, _>(&None::<T>, &mut Nothing).map_err(|e| e.to_string())?;
                    Ok(b.binds)
                }
            }
            fn decode(b: &[u8], my: bool) -> Result<Vec<u8>, String> {
                use diesel::deserialize::FromSql;
                let r = if my {
                    <T as FromSql<Text, diesel::mysql::Mysql>>::from_sql(diesel::mysql::MysqlValue::new(
                        b,
                        diesel::mysql::MysqlType::String,
                    ))
                } else {
                    let oid = std::num::NonZeroU32::new(25).unwrap();
                    <T as FromSql<Text, diesel::pg::Pg>>::from_sql(diesel::pg::PgValue::new(b, &oid))
                };
                r.map(bytes).map_err(|e| e.to_string())
            }
            pub static KIND: SqlKind = SqlKind {
                name: $name,
                cap: $cap,
                put,
                get,
                all,
                find,
                call,
                encode,
                decode,
            };
        }
    };
}
use arraystring::{ArrayString, CacheString};
sql_kind!(string, "String", String, usize::MAX, |_past, text| text.to_string());
macro_rules! arrays {
    ($($m:ident $n:literal),*) => {
        $(sql_kind!($m, concat!("ArrayString<", stringify!($n), ">"), ArrayString<$n>, $n, |past, text| {
            let mut s = <ArrayString<$n>>::from(past);
            s.clear();
            s.push_str_truncate(text);
            s
        });)*
    };
}
sql_kind!(cache, "CacheString", CacheString, 63, |past, text| {
    let mut s = CacheString::from(past);
    s.clear();
    s.push_str_truncate(text);
    s
});
arrays!(a1 1, a7 7, a20 20, a63 63, a64 64, a255 255);
#[cfg(feature = "all")]
arrays!(a2 2, a3 3, a4 4, a5 5, a8 8, a15 15, a16 16, a17 17, a31 31, a32 32, a100 100, a127 127, a128 128, a200 200, a254 254);

pub static STRING: &SqlKind = &string::KIND;
pub static KINDS: &[&SqlKind] = &[
    &cache::KIND, &a1::KIND, &a7::KIND, &a20::KIND, &a63::KIND, &a64::KIND, &a255::KIND,
    #[cfg(feature = "all")]
    &a2::KIND,
    #[cfg(feature = "all")]
    &a3::KIND,
    #[cfg(feature = "all")]
    &a4::KIND,
    #[cfg(feature = "all")]
    &a5::KIND,
    #[cfg(feature = "all")]
    &a8::KIND,
    #[cfg(feature = "all")]
    &a15::KIND,
    #[cfg(feature = "all")]
    &a16::KIND,
    #[cfg(feature = "all")]
    &a17::KIND,
    #[cfg(feature = "all")]
    &a31::KIND,
    #[cfg(feature = "all")]
    &a32::KIND,
    #[cfg(feature = "all")]
    &a100::KIND,
    #[cfg(feature = "all")]
    &a127::KIND,
    #[cfg(feature = "all")]
    &a128::KIND,
    #[cfg(feature = "all")]
    &a200::KIND,
    #[cfg(feature = "all")]
    &a254::KIND,
];
