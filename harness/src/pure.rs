//! Conversions whose value is the observation.
use crate::ops::{arr, fl, st, text, un, us, Ctx, R};
use rust_xlsxwriter::*;
use serde_json::{json, Value};

pub fn pure_op(_cx: &mut Ctx, op: &str, o: &Value) -> Option<R> {
    let (r, c, r2, c2) = (un(o, "r"), us(o, "c"), un(o, "r2"), us(o, "c2"));
    Some(match op {
        "colnames" => Ok(json!((us(o, "lo")..=us(o, "hi")).map(column_number_to_name).collect::<Vec<_>>())),
        "colnums" => Ok(json!(arr(o, "names")
            .iter()
            .map(|n| column_name_to_number(n.as_str().unwrap()).to_string())
            .collect::<Vec<_>>())),
        "cellref" => Ok(json!([row_col_to_cell(r, c), row_col_to_cell_absolute(r, c)])),
        "rangeref" => Ok(json!([cell_range(r, c, r2, c2), cell_range_absolute(r, c, r2, c2)])),
        "wsrange" => {
            let n = text(o, "name");
            Ok(json!([worksheet_range(&n, r, c, r2, c2), worksheet_range_absolute(&n, r, c, r2, c2)]))
        }
        "quote" => Ok(json!(quote_sheet_name(&text(o, "name")))),
        "checkname" => check_sheet_name(&text(o, "name")).map(|_| Value::Null),
        "d_ymd" => ExcelDateTime::from_ymd(un(o, "y") as u16, un(o, "m") as u8, un(o, "d") as u8).map(stamp),
        "d_hms" => match st(o, "how") {
            "milli" => ExcelDateTime::from_hms_milli(us(o, "h"), un(o, "mi") as u8, (un(o, "ms") / 1000) as u8, us_milli(o)).map(stamp),
            _ => ExcelDateTime::from_hms(us(o, "h"), un(o, "mi") as u8, fl(o, "sec")).map(stamp),
        },
        "d_ymdhms" => ExcelDateTime::from_ymd(un(o, "y") as u16, un(o, "m") as u8, un(o, "d") as u8)
            .and_then(|d| match st(o, "how") {
                "milli" => d.and_hms_milli(us(o, "h"), un(o, "mi") as u8, (un(o, "ms") / 1000) as u8, us_milli(o)),
                _ => d.and_hms(us(o, "h"), un(o, "mi") as u8, fl(o, "sec")),
            })
            .map(stamp),
        "d_parse" => ExcelDateTime::parse_from_str(st(o, "text")).map(stamp),
        "d_ts" => ExcelDateTime::from_timestamp(st(o, "ts").parse::<i64>().unwrap()).map(stamp),
        "d_serial" => ExcelDateTime::from_serial_datetime(fl(o, "v")).map(stamp),
        "d_chrono" => {
            let d = chrono::NaiveDate::from_ymd_opt(un(o, "y") as i32, un(o, "m"), un(o, "d"));
            let ms = un(o, "ms");
            let t = chrono::NaiveTime::from_hms_milli_opt(un(o, "h"), un(o, "mi"), ms / 1000, ms % 1000);
            let v = match st(o, "kind") {
                "date" => d.unwrap().to_excel_serial_date(),
                "time" => t.unwrap().to_excel_serial_date(),
                _ => d.unwrap().and_time(t.unwrap()).to_excel_serial_date(),
            };
            Ok(show(v))
        }
        "d_year" => {
            let y = un(o, "y");
            let mut out = vec![];
            for m in 1..=12u32 {
                for d in 1..=31u32 {
                    let vals = match st(o, "how") {
                        "parse" => ExcelDateTime::parse_from_str(&format!("{y}-{m:02}-{d:02}")).map(|d| d.to_excel()).ok(),
                        "chrono" | "ts" if (y, m, d) == (1900, 2, 29) => Some(60.0),
                        "chrono" => chrono::NaiveDate::from_ymd_opt(y as i32, m, d).map(|d| d.to_excel_serial_date()),
                        "ts" => chrono::NaiveDate::from_ymd_opt(y as i32, m, d).map(|d| {
                            let ts = d.and_hms_opt(0, 0, 0).unwrap().and_utc().timestamp();
                            ExcelDateTime::from_timestamp(ts).map(|d| d.to_excel()).unwrap_or(-1.0)
                        }),
                        _ => ExcelDateTime::from_ymd(y as u16, m as u8, d as u8).map(|d| d.to_excel()).ok(),
                    };
                    out.push(vals.map(|v| v.to_string()).unwrap_or("err".into()));
                }
            }
            Ok(json!(out))
        }
        _ => {
            let _ = st(o, "op");
            return None;
        }
    })
}

fn us_milli(o: &Value) -> u16 {
    (un(o, "ms") % 1000) as u16
}
/// Whole days and milliseconds.
fn show(v: f64) -> Value {
    let ms = (v * 86_400_000.0).round();
    if !ms.is_finite() || (v * 86_400_000.0 - ms).abs() > 0.2 {
        return json!(format!("inexact {v:?}"));
    }
    let ms = ms as i64;
    json!(format!("{}:{}", ms.div_euclid(86_400_000), ms.rem_euclid(86_400_000)))
}
fn stamp(d: ExcelDateTime) -> Value {
    show(d.to_excel())
}
