use crate::fmt;
use rust_xlsxwriter::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type Images = HashMap<String, Image>;

pub struct Ctx {
    pub wb: Workbook,
    pub id: String,
    pub dir: String,
    pub nsave: usize,
    pub spare: HashMap<String, Worksheet>,
    pub images: Images,
    /// Texts set so far, by place.
    pub texts: HashMap<String, Vec<(u32, String)>>,
}

pub type R = Result<Value, XlsxError>;

pub fn st<'a>(o: &'a Value, k: &str) -> &'a str {
    o.get(k).and_then(|v| v.as_str()).unwrap_or("")
}
pub fn un(o: &Value, k: &str) -> u32 {
    o.get(k).and_then(|v| v.as_u64()).unwrap_or(0) as u32
}
pub fn us(o: &Value, k: &str) -> u16 {
    un(o, k) as u16
}
pub fn bo(o: &Value, k: &str) -> bool {
    o.get(k).and_then(|v| v.as_bool()).unwrap_or(false)
}
pub fn fl(o: &Value, k: &str) -> f64 {
    match o.get(k) {
        Some(Value::String(s)) => num(s),
        Some(v) => v.as_f64().unwrap_or(0.0),
        None => 0.0,
    }
}
pub fn num(s: &str) -> f64 {
    match s {
        "NaN" => f64::NAN,
        "inf" => f64::INFINITY,
        "-inf" => f64::NEG_INFINITY,
        _ => s.parse().unwrap(),
    }
}
/// Text argument: a plain string, or "*N" style repeat record {"rep": c, "n": n},
/// or a list of code points.
pub fn text(o: &Value, k: &str) -> String {
    match o.get(k) {
        Some(Value::String(s)) => s.clone(),
        Some(Value::Array(a)) => a
            .iter()
            .map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap())
            .collect(),
        Some(Value::Object(m)) => {
            let pre = m.get("pre").and_then(|v| v.as_str()).unwrap_or("");
            pre.to_string() + &m["rep"].as_str().unwrap().repeat(m["n"].as_u64().unwrap() as usize)
        }
        _ => String::new(),
    }
}
pub fn arr<'a>(o: &'a Value, k: &str) -> Vec<&'a Value> {
    o.get(k).and_then(|v| v.as_array()).map(|v| v.iter().collect()).unwrap_or_default()
}
/// Optional format: present iff "hf" is true.
pub fn ofmt(o: &Value) -> Option<Format> {
    if bo(o, "hf") {
        Some(fmt::format(&o["f"]))
    } else {
        None
    }
}

pub fn err_kind(e: &XlsxError) -> String {
    let d = format!("{e:?}");
    d.chars().take_while(|c| c.is_ascii_alphanumeric()).collect()
}

pub fn run_case(case: &Value, dir: &str) -> Vec<Value> {
    let id = match &case["id"] {
        Value::String(s) => s.clone(),
        v => v.to_string(),
    };
    let mut cx = Ctx {
        wb: Workbook::new(),
        id,
        dir: dir.to_string(),
        nsave: 0,
        spare: HashMap::new(),
        images: HashMap::new(),
        texts: HashMap::new(),
    };
    let mut out = vec![];
    let ops: Vec<&Value> = case["ops"].as_array().expect("ops").iter().collect();
    let mut k = 0;
    while k < ops.len() {
        // Calls in threads: a run of calls marked so.
        let n = ops[k..].iter().take_while(|o| o.get("th").is_some()).count();
        if n > 0 {
            let images = std::mem::take(&mut cx.images);
            out.extend(crate::sched::block(cx.wb.worksheets_mut().as_mut_slice(), &ops[k..k + n], &images));
            cx.images = images;
            k += n;
            continue;
        }
        let op = ops[k];
        if let Some(v) = op.get("porder") {
            crate::sched::packing(Some(v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect()));
        }
        out.push(outcome(op, || step(&mut cx, op)));
        if op.get("porder").is_some() {
            crate::sched::packing(None);
        }
        k += 1;
    }
    out
}

/// The outcome of a call, as it is recorded.
pub fn outcome(op: &Value, call: impl FnOnce() -> R) -> Value {
    match catch_unwind(AssertUnwindSafe(call)) {
        Ok(Ok(Value::Null)) => json!({"k": "ok"}),
        Ok(Ok(v)) => json!({"k": "ok", "v": v}),
        Ok(Err(e)) => json!({"k": format!("err:{}", err_kind(&e)), "msg": e.to_string()}),
        Err(p) => {
            let m = if let Some(s) = p.downcast_ref::<String>() {
                s.clone()
            } else if let Some(s) = p.downcast_ref::<&str>() {
                s.to_string()
            } else {
                String::new()
            };
            if m.starts_with("harness:") {
                eprintln!("HARNESS ERROR {m} in op {op}");
                std::process::exit(3);
            }
            json!({"k": "panic", "msg": m})
        }
    }
}

pub fn step(cx: &mut Ctx, o: &Value) -> R {
    let op = st(o, "op");
    if let Some(r) = wb_op(cx, op, o) {
        return r;
    }
    if let Some(r) = crate::io::io_op(cx, op, o) {
        return r;
    }
    if let Some(r) = crate::pure::pure_op(cx, op, o) {
        return r;
    }
    if let Some(r) = crate::objects::wb_op(cx, op, o) {
        return r;
    }
    if let Some(r) = crate::texts::wb_op(cx, op, o) {
        return r;
    }
    let s = un(o, "s") as usize;
    // Objects need both the worksheet and the image cache.
    let images = std::mem::take(&mut cx.images);
    let res = (|| {
        let ws = if let Some(name) = o.get("spare").and_then(|v| v.as_str()) {
            cx.spare.get_mut(name).expect("harness: spare")
        } else {
            cx.wb.worksheet_from_index(s)?
        };
        ws_op(ws, &images, op, o)
    })();
    cx.images = images;
    res
}

/// A call on a worksheet.
pub fn ws_op(ws: &mut Worksheet, images: &Images, op: &str, o: &Value) -> R {
    if let Some(r) = grid_op(ws, op, o) {
        return r;
    }
    if let Some(r) = layout_op(ws, op, o) {
        return r;
    }
    if let Some(r) = crate::objects::ws_op(ws, op, o, images) {
        return r;
    }
    if let Some(r) = crate::rules::rule_op(ws, op, o) {
        return r;
    }
    if let Some(r) = crate::charts::chart_op(ws, op, o) {
        return r;
    }
    if let Some(r) = crate::ser::ser_op(ws, op, o) {
        return r;
    }
    if let Some(r) = crate::texts::ws_op(ws, op, o) {
        return r;
    }
    panic!("harness: unknown op {op}");
}

fn wb_op(cx: &mut Ctx, op: &str, o: &Value) -> Option<R> {
    let mode = st(o, "mode");
    Some(match op {
        "new_wb" => {
            cx.wb = Workbook::new();
            cx.spare.clear();
            Ok(Value::Null)
        }
        "add_sheet" => {
            match mode {
                "const" => cx.wb.add_worksheet_with_constant_memory(),
                "low" => cx.wb.add_worksheet_with_low_memory(),
                "chart" => cx.wb.add_chartsheet(),
                _ => cx.wb.add_worksheet(),
            };
            Ok(Value::Null)
        }
        "new_spare" => {
            let w = match mode {
                "const" => cx.wb.new_worksheet_with_constant_memory(),
                "low" => cx.wb.new_worksheet_with_low_memory(),
                "chart" => Worksheet::new_chartsheet(),
                _ => Worksheet::new(),
            };
            cx.spare.insert(st(o, "name").to_string(), w);
            Ok(Value::Null)
        }
        "push_spare" => {
            let w = cx.spare.remove(st(o, "name")).expect("harness: spare");
            cx.wb.push_worksheet(w);
            Ok(Value::Null)
        }
        "sheet_from_name" => cx.wb.worksheet_from_name(st(o, "name")).map(|w| json!(w.name())),
        "sheet_from_index" => cx.wb.worksheet_from_index(un(o, "i") as usize).map(|w| json!(w.name())),
        "sheet_names" => Ok(json!(cx.wb.worksheets().iter().map(|w| w.name()).collect::<Vec<_>>())),
        "swap_sheets" => {
            cx.wb.worksheets_mut().swap(un(o, "a") as usize, un(o, "b") as usize);
            Ok(Value::Null)
        }
        "remove_sheet" => {
            cx.wb.worksheets_mut().remove(un(o, "i") as usize);
            Ok(Value::Null)
        }
        "define_name" => cx.wb.define_name(st(o, "name"), st(o, "v")).map(|_| Value::Null),
        "read_only_recommended" => {
            cx.wb.read_only_recommended();
            Ok(Value::Null)
        }
        "wb_vba_name" => cx.wb.set_vba_name(st(o, "v")).map(|_| Value::Null),
        "vba" => {
            // Files which hold the macros and, if there is one, the signature.
            let file = |tail: &str, v: Option<&Value>| {
                let p = format!("{}/{}-{}.bin", cx.dir, cx.id, tail);
                match v.and_then(|v| v.as_str()) {
                    Some(t) => std::fs::write(&p, format!("VBA:{t};")).unwrap(),
                    None => _ = std::fs::remove_file(&p),
                }
                p
            };
            let a = file("vba", o.get("v"));
            let r = if o.get("nosig").is_some() || o.get("sig").is_some() {
                let b = file("sig", o.get("sig"));
                let r = cx.wb.add_vba_project_with_signature(&a, &b).map(|_| Value::Null);
                _ = std::fs::remove_file(&b);
                r
            } else {
                cx.wb.add_vba_project(&a).map(|_| Value::Null)
            };
            _ = std::fs::remove_file(&a);
            r
        }
        "zip64" => {
            cx.wb.use_zip_large_file(bo(o, "v"));
            Ok(Value::Null)
        }
        _ => return None,
    })
}

macro_rules! ok {
    ($e:expr) => {
        $e.map(|_| Value::Null)
    };
}

pub fn error_formula(o: &Value, k: &str) -> Formula {
    let mut f = Formula::new(st(o, k));
    if let Some(r) = o.get("res").and_then(|v| v.as_str()) {
        f = f.set_result(r);
    }
    f
}

pub fn url(o: &Value) -> Url {
    let mut u = Url::new(text(o, "url"));
    if o.get("text").is_some() {
        u = u.set_text(text(o, "text"));
    }
    if o.get("tip").is_some() {
        u = u.set_tip(text(o, "tip"));
    }
    u
}

fn grid_op(ws: &mut Worksheet, op: &str, o: &Value) -> Option<R> {
    let (r, c) = (un(o, "r"), us(o, "c"));
    let (r2, c2) = (un(o, "r2"), us(o, "c2"));
    let f = ofmt(o);
    Some(match op {
        "num" => {
            let v = fl(o, "v");
            match (st(o, "via"), &f) {
                ("write", None) => ok!(ws.write(r, c, v)),
                ("write", Some(f)) => ok!(ws.write_with_format(r, c, v, f)),
                ("i32", None) => ok!(ws.write(r, c, v as i32)),
                ("i32", Some(f)) => ok!(ws.write_with_format(r, c, v as i32, f)),
                ("u16", None) => ok!(ws.write(r, c, v as u16)),
                ("f32", None) => ok!(ws.write(r, c, v as f32)),
                (_, None) => ok!(ws.write_number(r, c, v)),
                (_, Some(f)) => ok!(ws.write_number_with_format(r, c, v, f)),
            }
        }
        "str" => {
            let v = text(o, "v");
            match (st(o, "via"), &f) {
                ("write", None) => ok!(ws.write(r, c, &v)),
                ("write", Some(f)) => ok!(ws.write_with_format(r, c, &v, f)),
                ("opt", None) => ok!(ws.write(r, c, if v.is_empty() { None } else { Some(v) })),
                ("opt", Some(f)) => ok!(ws.write_with_format(r, c, if v.is_empty() { None } else { Some(v) }, f)),
                (_, None) => ok!(ws.write_string(r, c, &v)),
                (_, Some(f)) => ok!(ws.write_string_with_format(r, c, &v, f)),
            }
        }
        "bool" => match (st(o, "via"), &f) {
            ("write", None) => ok!(ws.write(r, c, bo(o, "v"))),
            ("write", Some(f)) => ok!(ws.write_with_format(r, c, bo(o, "v"), f)),
            (_, None) => ok!(ws.write_boolean(r, c, bo(o, "v"))),
            (_, Some(f)) => ok!(ws.write_boolean_with_format(r, c, bo(o, "v"), f)),
        },
        "checkbox" => match &f {
            None => ok!(ws.insert_checkbox(r, c, bo(o, "v"))),
            Some(f) => ok!(ws.insert_checkbox_with_format(r, c, bo(o, "v"), f)),
        },
        "blank" => match (st(o, "via"), &f) {
            ("write", Some(f)) => ok!(ws.write_with_format(r, c, "", f)),
            (_, Some(f)) => ok!(ws.write_blank(r, c, f)),
            (_, None) => ok!(ws.write_blank(r, c, &Format::new())),
        },
        "formula" => {
            let v = error_formula(o, "v");
            match (st(o, "via"), &f) {
                ("write", None) => ok!(ws.write(r, c, v)),
                ("write", Some(f)) => ok!(ws.write_with_format(r, c, v, f)),
                (_, None) => ok!(ws.write_formula(r, c, v)),
                (_, Some(f)) => ok!(ws.write_formula_with_format(r, c, v, f)),
            }
        }
        "array" => {
            let v = error_formula(o, "v");
            match &f {
                None => ok!(ws.write_array_formula(r, c, r2, c2, v)),
                Some(f) => ok!(ws.write_array_formula_with_format(r, c, r2, c2, v, f)),
            }
        }
        "dynarray" => {
            let v = error_formula(o, "v");
            match &f {
                None => ok!(ws.write_dynamic_array_formula(r, c, r2, c2, v)),
                Some(f) => ok!(ws.write_dynamic_array_formula_with_format(r, c, r2, c2, v, f)),
            }
        }
        "dynformula" => {
            let v = error_formula(o, "v");
            match &f {
                None => ok!(ws.write_dynamic_formula(r, c, v)),
                Some(f) => ok!(ws.write_dynamic_formula_with_format(r, c, v, f)),
            }
        }
        "rich" => {
            let segs: Vec<(Format, String)> = arr(o, "segs")
                .iter()
                .map(|s| (fmt::format(&s["f"]), text(s, "t")))
                .collect();
            let refs: Vec<(&Format, &str)> = segs.iter().map(|(f, t)| (f, t.as_str())).collect();
            match &f {
                None => ok!(ws.write_rich_string(r, c, &refs)),
                Some(f) => ok!(ws.write_rich_string_with_format(r, c, &refs, f)),
            }
        }
        "datetime" => {
            let d = match ExcelDateTime::parse_from_str(st(o, "v")) {
                Ok(d) => d,
                Err(e) => return Some(Err(e)),
            };
            match (st(o, "via"), &f) {
                ("write", None) => ok!(ws.write(r, c, &d)),
                ("write", Some(f)) => ok!(ws.write_with_format(r, c, &d, f)),
                ("date", Some(f)) => ok!(ws.write_date_with_format(r, c, &d, f)),
                ("time", Some(f)) => ok!(ws.write_time_with_format(r, c, &d, f)),
                (_, None) => ok!(ws.write_datetime(r, c, &d)),
                (_, Some(f)) => ok!(ws.write_datetime_with_format(r, c, &d, f)),
            }
        }
        "url" => {
            let u = url(o);
            match (st(o, "via"), &f) {
                ("write", None) => ok!(ws.write(r, c, u)),
                ("write", Some(f)) => ok!(ws.write_with_format(r, c, u, f)),
                ("text", None) => ok!(ws.write_url_with_text(r, c, text(o, "url").as_str(), text(o, "text"))),
                ("options", f) => ok!(ws.write_url_with_options(
                    r, c, text(o, "url").as_str(), text(o, "text"), text(o, "tip"), f.as_ref()
                )),
                (_, None) => ok!(ws.write_url(r, c, u)),
                (_, Some(f)) => ok!(ws.write_url_with_format(r, c, u, f)),
            }
        }
        "row" => {
            let vs: Vec<f64> = arr(o, "vs").iter().map(|v| num(v.as_str().unwrap())).collect();
            match &f {
                None => ok!(ws.write_row(r, c, vs)),
                Some(f) => ok!(ws.write_row_with_format(r, c, vs, f)),
            }
        }
        "col" => {
            let vs: Vec<f64> = arr(o, "vs").iter().map(|v| num(v.as_str().unwrap())).collect();
            match &f {
                None => ok!(ws.write_column(r, c, vs)),
                Some(f) => ok!(ws.write_column_with_format(r, c, vs, f)),
            }
        }
        "rowmat" | "colmat" => {
            let vs: Vec<Vec<f64>> = arr(o, "vs")
                .iter()
                .map(|v| v.as_array().unwrap().iter().map(|v| num(v.as_str().unwrap())).collect())
                .collect();
            if op == "rowmat" {
                ok!(ws.write_row_matrix(r, c, vs))
            } else {
                ok!(ws.write_column_matrix(r, c, vs))
            }
        }
        "srow" => {
            let vs: Vec<String> = arr(o, "vs").iter().map(|v| v.as_str().unwrap().to_string()).collect();
            match &f {
                None => ok!(ws.write_row(r, c, vs)),
                Some(f) => ok!(ws.write_row_with_format(r, c, vs, f)),
            }
        }
        "merge" => ok!(ws.merge_range(r, c, r2, c2, &text(o, "v"), &f.unwrap_or_default())),
        "set_result" => {
            ws.set_formula_result(r, c, st(o, "v"));
            Ok(Value::Null)
        }
        "set_result_default" => {
            ws.set_formula_result_default(st(o, "v"));
            Ok(Value::Null)
        }
        "clear" => {
            ws.clear_cell(r, c);
            Ok(Value::Null)
        }
        "clearf" => {
            ws.clear_cell_format(r, c);
            Ok(Value::Null)
        }
        "setf" => ok!(ws.set_cell_format(r, c, &f.unwrap_or_default())),
        "setrf" => ok!(ws.set_range_format(r, c, r2, c2, &f.unwrap_or_default())),
        "setrfb" => ok!(ws.set_range_format_with_border(
            r, c, r2, c2, &f.unwrap_or_default(), &fmt::format(&o["bf"])
        )),
        "nanval" => {
            match st(o, "which") {
                "nan" => ws.set_nan_value(st(o, "v")),
                "inf" => ws.set_infinity_value(st(o, "v")),
                _ => ws.set_neg_infinity_value(st(o, "v")),
            };
            Ok(Value::Null)
        }
        _ => return None,
    })
}

fn layout_op(ws: &mut Worksheet, op: &str, o: &Value) -> Option<R> {
    let (r, c) = (un(o, "r"), us(o, "c"));
    let (r2, c2) = (un(o, "r2"), us(o, "c2"));
    let f = ofmt(o).unwrap_or_default();
    macro_rules! unit {
        ($e:expr) => {{
            $e;
            Ok(Value::Null)
        }};
    }
    Some(match op {
        "rheight" => ok!(ws.set_row_height(r, fl(o, "v"))),
        "rheightpx" => ok!(ws.set_row_height_pixels(r, us(o, "v"))),
        "rformat" => ok!(ws.set_row_format(r, &f)),
        "rhide" => ok!(ws.set_row_hidden(r)),
        "runhide" => ok!(ws.set_row_unhidden(r)),
        "rdefault" => unit!(ws.set_default_row_height(fl(o, "v"))),
        "rdefaultpx" => unit!(ws.set_default_row_height_pixels(us(o, "v"))),
        "hideunused" => unit!(ws.hide_unused_rows(bo(o, "v"))),
        "rgroup" => ok!(ws.group_rows(r, r2)),
        "rgroupc" => ok!(ws.group_rows_collapsed(r, r2)),
        "cgroup" => ok!(ws.group_columns(c, c2)),
        "cgroupc" => ok!(ws.group_columns_collapsed(c, c2)),
        "symabove" => unit!(ws.group_symbols_above(bo(o, "v"))),
        "symleft" => unit!(ws.group_symbols_to_left(bo(o, "v"))),
        "cwidth" => ok!(ws.set_column_width(c, fl(o, "v"))),
        "cwidthpx" => ok!(ws.set_column_width_pixels(c, us(o, "v"))),
        "cautow" => ok!(ws.set_column_autofit_width(c, us(o, "v"))),
        "cformat" => ok!(ws.set_column_format(c, &f)),
        "chide" => ok!(ws.set_column_hidden(c)),
        "cwidths" => ok!(ws.set_column_range_width(c, c2, fl(o, "v"))),
        "cwidthspx" => ok!(ws.set_column_range_width_pixels(c, c2, us(o, "v"))),
        "cformats" => ok!(ws.set_column_range_format(c, c2, &f)),
        "chides" => ok!(ws.set_column_range_hidden(c, c2)),
        "autofit" => unit!(ws.autofit()),
        "autofitmax" => unit!(ws.autofit_to_max_width(us(o, "v"))),
        "setname" => ok!(ws.set_name(text(o, "name"))),
        "name" => Ok(json!(ws.name())),
        "active" => unit!(ws.set_active(bo(o, "v"))),
        "selected" => unit!(ws.set_selected(bo(o, "v"))),
        "hidden" => unit!(ws.set_hidden(bo(o, "v"))),
        "veryhidden" => unit!(ws.set_very_hidden(bo(o, "v"))),
        "firsttab" => unit!(ws.set_first_tab(bo(o, "v"))),
        "rtl" => unit!(ws.set_right_to_left(bo(o, "v"))),
        "tabcolor" => unit!(ws.set_tab_color(fmt::color(st(o, "v")))),
        "paper" => unit!(ws.set_paper_size(un(o, "v") as u8)),
        "pageorder" => unit!(ws.set_page_order(bo(o, "v"))),
        "landscape" => unit!(ws.set_landscape()),
        "portrait" => unit!(ws.set_portrait()),
        "view" => match st(o, "v") {
            "normal" => unit!(ws.set_view_normal()),
            "layout" => unit!(ws.set_view_page_layout()),
            _ => unit!(ws.set_view_page_break_preview()),
        },
        "breaks" => {
            let v: Vec<u32> = arr(o, "vs").iter().map(|x| x.as_u64().unwrap() as u32).collect();
            ok!(ws.set_page_breaks(&v))
        }
        "vbreaks" => {
            let v: Vec<u32> = arr(o, "vs").iter().map(|x| x.as_u64().unwrap() as u32).collect();
            ok!(ws.set_vertical_page_breaks(&v))
        }
        "zoom" => unit!(ws.set_zoom(us(o, "v"))),
        "freeze" => ok!(ws.set_freeze_panes(r, c)),
        "freezetop" => ok!(ws.set_freeze_panes_top_cell(r, c)),
        "header" => unit!(ws.set_header(text(o, "v"))),
        "footer" => unit!(ws.set_footer(text(o, "v"))),
        "hfscale" => unit!(ws.set_header_footer_scale_with_doc(bo(o, "v"))),
        "hfalign" => unit!(ws.set_header_footer_align_with_page(bo(o, "v"))),
        "margins" => {
            let v: Vec<f64> = arr(o, "vs").iter().map(|x| num(x.as_str().unwrap())).collect();
            unit!(ws.set_margins(v[0], v[1], v[2], v[3], v[4], v[5]))
        }
        "firstpage" => unit!(ws.set_print_first_page_number(us(o, "v"))),
        "pscale" => unit!(ws.set_print_scale(us(o, "v"))),
        "pfit" => unit!(ws.set_print_fit_to_pages(us(o, "w"), us(o, "h"))),
        "pch" => unit!(ws.set_print_center_horizontally(bo(o, "v"))),
        "pcv" => unit!(ws.set_print_center_vertically(bo(o, "v"))),
        "sgrid" => unit!(ws.set_screen_gridlines(bo(o, "v"))),
        "pgrid" => unit!(ws.set_print_gridlines(bo(o, "v"))),
        "pbw" => unit!(ws.set_print_black_and_white(bo(o, "v"))),
        "pdraft" => unit!(ws.set_print_draft(bo(o, "v"))),
        "phead" => unit!(ws.set_print_headings(bo(o, "v"))),
        "parea" => ok!(ws.set_print_area(r, c, r2, c2)),
        "rrows" => ok!(ws.set_repeat_rows(r, r2)),
        "rcols" => ok!(ws.set_repeat_columns(c, c2)),
        "selection" => ok!(ws.set_selection(r, c, r2, c2)),
        "topleft" => ok!(ws.set_top_left_cell(r, c)),
        "vbaname" => ok!(ws.set_vba_name(st(o, "v"))),
        "autofilter" => ok!(ws.autofilter(r, c, r2, c2)),
        "filter" => {
            let mut fc = FilterCondition::new();
            for e in arr(o, "conds") {
                fc = match st(e, "k") {
                    "list" => match &e["v"] {
                        Value::String(s) => fc.add_list_filter(s.as_str()),
                        v => fc.add_list_filter(num(v["n"].as_str().unwrap())),
                    },
                    "blanks" => fc.add_list_blanks_filter(),
                    "or" => fc.add_custom_boolean_or(),
                    k => {
                        let cr = match k {
                            "eq" => FilterCriteria::EqualTo,
                            "ne" => FilterCriteria::NotEqualTo,
                            "gt" => FilterCriteria::GreaterThan,
                            "ge" => FilterCriteria::GreaterThanOrEqualTo,
                            "lt" => FilterCriteria::LessThan,
                            "le" => FilterCriteria::LessThanOrEqualTo,
                            "bw" => FilterCriteria::BeginsWith,
                            "nbw" => FilterCriteria::DoesNotBeginWith,
                            "ew" => FilterCriteria::EndsWith,
                            "new" => FilterCriteria::DoesNotEndWith,
                            "ct" => FilterCriteria::Contains,
                            "nct" => FilterCriteria::DoesNotContain,
                            _ => panic!("harness: criteria {k}"),
                        };
                        match &e["v"] {
                            Value::String(s) => fc.add_custom_filter(cr, s.as_str()),
                            v => fc.add_custom_filter(cr, num(v["n"].as_str().unwrap())),
                        }
                    }
                };
            }
            ok!(ws.filter_column(c, &fc))
        }
        "table" => ok!(ws.add_table(r, c, r2, c2, &crate::objects::table(o))),
        "filteroff" => unit!(ws.filter_automatic_off()),
        "protect" => {
            match o.get("pw") {
                Some(_) => ws.protect_with_password(&text(o, "pw")),
                None => ws.protect(),
            };
            Ok(Value::Null)
        }
        "protectopt" => {
            let d = ProtectionOptions::default();
            let g = |k: &str, d: bool| o.get(k).and_then(|v| v.as_bool()).unwrap_or(d);
            let p = ProtectionOptions {
                select_locked_cells: g("select_locked_cells", d.select_locked_cells),
                select_unlocked_cells: g("select_unlocked_cells", d.select_unlocked_cells),
                format_cells: g("format_cells", d.format_cells),
                format_columns: g("format_columns", d.format_columns),
                format_rows: g("format_rows", d.format_rows),
                insert_columns: g("insert_columns", d.insert_columns),
                insert_rows: g("insert_rows", d.insert_rows),
                insert_links: g("insert_links", d.insert_links),
                delete_columns: g("delete_columns", d.delete_columns),
                delete_rows: g("delete_rows", d.delete_rows),
                sort: g("sort", d.sort),
                use_autofilter: g("use_autofilter", d.use_autofilter),
                use_pivot_tables: g("use_pivot_tables", d.use_pivot_tables),
                edit_scenarios: g("edit_scenarios", d.edit_scenarios),
                edit_objects: g("edit_objects", d.edit_objects),
                contents: g("contents", d.contents),
            };
            unit!(ws.protect_with_options(&p))
        }
        "unprotect" => {
            if o.get("name").is_some() || o.get("pw").is_some() {
                ok!(ws.unprotect_range_with_options(r, c, r2, c2, &text(o, "name"), &text(o, "pw")))
            } else {
                ok!(ws.unprotect_range(r, c, r2, c2))
            }
        }
        "ignore" => {
            let t = match st(o, "t") {
                "numberStoredAsText" => IgnoreError::NumberStoredAsText,
                "evalError" => IgnoreError::FormulaError,
                "formulaRange" => IgnoreError::FormulaOmitsCells,
                "formula" => IgnoreError::FormulaDiffers,
                "unlockedFormula" => IgnoreError::UnlockedCellsWithFormula,
                "emptyCellReference" => IgnoreError::FormulaRefersToEmptyCells,
                "listDataValidation" => IgnoreError::DataValidationError,
                "calculatedColumn" => IgnoreError::InconsistentColumnFormula,
                _ => IgnoreError::TwoDigitTextYear,
            };
            ok!(ws.ignore_error_range(r, c, r2, c2, t))
        }
        _ => return None,
    })
}
