//! Document properties, charts, images, notes and other objects.
use crate::ops::{arr, bo, fl, st, text, un, us, Ctx, R};
use rust_xlsxwriter::*;
use serde_json::Value;
use std::collections::HashMap;

fn props(o: &Value) -> Result<DocProperties, XlsxError> {
    let mut p = DocProperties::new();
    let s = &o["set"];
    let get = |k: &str| s.get(k).and_then(|v| v.as_str());
    macro_rules! set {
        ($k:expr, $f:ident) => {
            if let Some(v) = get($k) {
                p = p.$f(v);
            }
        };
    }
    set!("title", set_title);
    set!("subject", set_subject);
    set!("author", set_author);
    set!("manager", set_manager);
    set!("company", set_company);
    set!("category", set_category);
    set!("keywords", set_keywords);
    set!("comment", set_comment);
    set!("status", set_status);
    set!("hyperlink_base", set_hyperlink_base);
    let dt = |v: &str, how: &str| match how {
        "serial" => ExcelDateTime::from_serial_datetime(ExcelDateTime::parse_from_str(v)?.to_excel()),
        "frac" => ExcelDateTime::parse_from_str(&v.replace('Z', ".25")),
        _ => ExcelDateTime::parse_from_str(v),
    };
    if let Some(v) = get("created") {
        p = p.set_creation_datetime(&dt(v, st(s, "created_how"))?);
    }
    for c in arr(o, "custom") {
        let (n, v) = (st(c, "n"), st(c, "v"));
        p = match st(c, "t") {
            "lpwstr" => p.set_custom_property(n, v),
            "i4" => p.set_custom_property(n, v.parse::<i32>().unwrap()),
            "r8" => p.set_custom_property(n, v.parse::<f64>().unwrap()),
            "bool" => p.set_custom_property(n, v == "true"),
            _ => p.set_custom_property(n, &dt(v, st(c, "how"))?),
        };
    }
    Ok(p)
}

pub fn wb_op(cx: &mut Ctx, op: &str, o: &Value) -> Option<R> {
    Some(match op {
        "props" => props(o).map(|p| {
            cx.wb.set_properties(&p);
            Value::Null
        }),
        _ => return None,
    })
}

/// An image file of a few bytes: the header its type needs and a marker.
pub fn image_bytes(i: &Value) -> Vec<u8> {
    let (w, h) = (un(i, "w"), un(i, "h"));
    let (dx, dy, unit) = (un(i, "dx"), un(i, "dy"), un(i, "unit"));
    let mut b: Vec<u8> = vec![];
    match st(i, "t") {
        "png" => {
            b.extend(b"\x89PNG\r\n\x1a\n");
            b.extend(13u32.to_be_bytes());
            b.extend(b"IHDR");
            b.extend(w.to_be_bytes());
            b.extend(h.to_be_bytes());
            b.extend([8, 2, 0, 0, 0, 1, 2, 3, 4]);
            if dx > 0 {
                b.extend(9u32.to_be_bytes());
                b.extend(b"pHYs");
                b.extend(dx.to_be_bytes());
                b.extend(dy.to_be_bytes());
                b.extend([unit as u8, 1, 2, 3, 4]);
            }
            b.extend([0, 0, 0, 0]);
            b.extend(b"IEND");
            b.extend([1, 2, 3, 4]);
        }
        "jpeg" => {
            b.extend([0xff, 0xd8, 0xff, 0xe0, 0, 16]);
            b.extend(b"JFIF\0\x01\x01");
            b.push(unit as u8);
            b.extend((dx as u16).to_be_bytes());
            b.extend((dy as u16).to_be_bytes());
            b.extend([0, 0]);
            if st(i, "sof") == "c4first" {
                b.extend([0xff, 0xc4, 0, 9, 8, 0, 99, 0, 99, 3, 0]);
            }
            b.extend([0xff, 0xc0, 0, 17, 8]);
            b.extend((h as u16).to_be_bytes());
            b.extend((w as u16).to_be_bytes());
            b.extend([3, 1, 0x22, 0, 2, 0x11, 1, 3, 0x11, 1]);
            b.extend([0xff, 0xda, 0, 12, 3, 1, 0, 2, 0x11, 3, 0x11, 0, 0x3f, 0]);
        }
        "gif" => {
            b.extend(b"GIF89a");
            b.extend((w as u16).to_le_bytes());
            b.extend((h as u16).to_le_bytes());
            b.extend([0, 0, 0]);
        }
        "bmp" => {
            b.extend(b"BM");
            b.extend([0; 16]);
            b.extend(w.to_le_bytes());
            b.extend(h.to_le_bytes());
            b.extend([0; 28]);
        }
        _ => panic!("harness: image type"),
    }
    b.extend(format!("IMG{};", un(i, "id")).into_bytes());
    b
}

fn movement(s: &str) -> Option<ObjectMovement> {
    match s {
        "move" => Some(ObjectMovement::MoveButDontSizeWithCells),
        "movesize" => Some(ObjectMovement::MoveAndSizeWithCells),
        "none" => Some(ObjectMovement::DontMoveOrSizeWithCells),
        "after" => Some(ObjectMovement::MoveAndSizeWithCellsAfter),
        _ => None,
    }
}

fn url(o: &Value) -> Option<Url> {
    o.get("url").map(|_| {
        let u = Url::new(text(o, "url"));
        if o.get("tip").is_some() {
            u.set_tip(text(o, "tip"))
        } else {
            u
        }
    })
}

/// The image of a record, its options set in a fixed order.
pub fn image(i: &Value) -> Result<Image, XlsxError> {
    let mut m = Image::new_from_buffer(&image_bytes(i))?;
    if i.get("sw").is_some() {
        m = m.set_scale_width(fl(i, "sw"));
    }
    if i.get("sh").is_some() {
        m = m.set_scale_height(fl(i, "sh"));
    }
    if i.get("setw").is_some() {
        m = m.set_width(un(i, "setw"));
    }
    if i.get("seth").is_some() {
        m = m.set_height(un(i, "seth"));
    }
    if let Some(f) = i.get("fitto").and_then(|v| v.as_array()) {
        m = m.set_scale_to_size(f[0].as_u64().unwrap() as u32, f[1].as_u64().unwrap() as u32, bo(i, "fitkeep"));
    }
    if i.get("alt").is_some() {
        m = m.set_alt_text(text(i, "alt"));
    }
    if i.get("decov").is_some() {
        m = m.set_decorative(bo(i, "decov"));
    }
    if let Some(v) = movement(st(i, "mvv")) {
        m = m.set_object_movement(v);
    }
    if let Some(u) = url(i) {
        m = m.set_url(u)?;
    }
    Ok(m)
}

pub fn simple_chart_type(s: &str) -> ChartType {
    match s {
        "bar" => ChartType::Bar,
        "line" => ChartType::Line,
        "pie" => ChartType::Pie,
        "area" => ChartType::Area,
        "scatter" => ChartType::Scatter,
        "radar" => ChartType::Radar,
        "doughnut" => ChartType::Doughnut,
        _ => ChartType::Column,
    }
}

fn ochart(o: &Value) -> Chart {
    let mut ch = Chart::new(simple_chart_type(st(o, "type")));
    for k in 0..un(o, "nser") {
        let s = ch.add_series();
        s.set_values(("Sheet1", 0, k as u16, 2, k as u16));
        if st(o, "type") == "scatter" {
            s.set_categories(("Sheet1", 0, 9, 2, 9));
        }
    }
    if o.get("title").is_some() {
        ch.title().set_name(&text(o, "title"));
    }
    if o.get("w").is_some() {
        ch.set_width(un(o, "w"));
    }
    if o.get("h").is_some() {
        ch.set_height(un(o, "h"));
    }
    if o.get("sw").is_some() {
        ch.set_scale_width(fl(o, "sw"));
    }
    if o.get("sh").is_some() {
        ch.set_scale_height(fl(o, "sh"));
    }
    if o.get("name").is_some() {
        ch.set_name(text(o, "name"));
    }
    if o.get("alt").is_some() {
        ch.set_alt_text(text(o, "alt"));
    }
    if o.get("decov").is_some() {
        ch.set_decorative(bo(o, "decov"));
    }
    if let Some(v) = movement(st(o, "mvv")) {
        ch.set_object_movement(v);
    }
    ch
}

fn shape(o: &Value) -> Result<Shape, XlsxError> {
    let mut s = Shape::textbox();
    if o.get("text").is_some() {
        s = s.set_text(text(o, "text"));
    }
    if o.get("link").is_some() {
        s = s.set_text_link(st(o, "link"));
    }
    if o.get("w").is_some() {
        s = s.set_width(un(o, "w"));
    }
    if o.get("h").is_some() {
        s = s.set_height(un(o, "h"));
    }
    if o.get("alt").is_some() {
        s = s.set_alt_text(text(o, "alt"));
    }
    if let Some(v) = movement(st(o, "mvv")) {
        s = s.set_object_movement(v);
    }
    let mut f = ShapeFormat::new();
    let mut font = ShapeFont::new();
    let mut line = ShapeLine::new();
    let mut opts = ShapeText::new();
    let (mut has_f, mut has_font, mut has_line, mut has_opts) = (false, false, false, false);
    for e in arr(o, "opts") {
        let v = e[1].as_str().unwrap();
        match e[0].as_str().unwrap() {
            "fill" => {
                has_f = true;
                f = if v == "none" { f.set_no_fill() } else { f.set_solid_fill(&ShapeSolidFill::new().set_color(crate::fmt::color(v))) };
            }
            "noline" => {
                has_f = true;
                f = f.set_no_line();
            }
            "linecolor" => {
                has_line = true;
                line = line.set_color(crate::fmt::color(v));
            }
            "linewidth" => {
                has_line = true;
                line = line.set_width(v.parse::<f64>().unwrap());
            }
            "dash" => {
                has_line = true;
                line = line.set_dash_type(match v {
                    "dash" => ShapeLineDashType::Dash,
                    "sysDot" => ShapeLineDashType::RoundDot,
                    _ => ShapeLineDashType::LongDash,
                });
            }
            "b" => {
                has_font = true;
                font = font.set_bold();
            }
            "i" => {
                has_font = true;
                font = font.set_italic();
            }
            "u" => {
                has_font = true;
                font = font.set_underline();
            }
            "st" => {
                has_font = true;
                font = font.set_strikethrough();
            }
            "fn" => {
                has_font = true;
                font = font.set_name(v);
            }
            "fs" => {
                has_font = true;
                font = font.set_size(v.parse::<f64>().unwrap());
            }
            "fc" => {
                has_font = true;
                font = font.set_color(crate::fmt::color(v));
            }
            "ha" => {
                has_opts = true;
                opts = opts.set_horizontal_alignment(match v {
                    "l" => ShapeTextHorizontalAlignment::Left,
                    "ctr" => ShapeTextHorizontalAlignment::Center,
                    _ => ShapeTextHorizontalAlignment::Right,
                });
            }
            "va" => {
                has_opts = true;
                opts = opts.set_vertical_alignment(match v {
                    "ctr0" => ShapeTextVerticalAlignment::Middle,
                    "b0" => ShapeTextVerticalAlignment::Bottom,
                    "t1" => ShapeTextVerticalAlignment::TopCentered,
                    "ctr1" => ShapeTextVerticalAlignment::MiddleCentered,
                    _ => ShapeTextVerticalAlignment::BottomCentered,
                });
            }
            "dir" => {
                has_opts = true;
                opts = opts.set_direction(match v {
                    "wordArtVert" => ShapeTextDirection::Stacked,
                    "vert" => ShapeTextDirection::Rotate90,
                    "vert270" => ShapeTextDirection::Rotate270,
                    _ => ShapeTextDirection::Rotate90EastAsian,
                });
            }
            k => panic!("harness: shape option {k}"),
        }
    }
    if has_line {
        f = f.set_line(&line);
        has_f = true;
    }
    if has_f {
        s = s.set_format(&f);
    }
    if has_font {
        s = s.set_font(&font);
    }
    if has_opts {
        s = s.set_text_options(&opts);
    }
    if let Some(u) = url(o) {
        s = s.set_url(u)?;
    }
    Ok(s)
}

fn button(o: &Value) -> Button {
    let mut b = Button::new();
    if o.get("cap").is_some() {
        b = b.set_caption(text(o, "cap"));
    }
    if o.get("mac").is_some() {
        b = b.set_macro(text(o, "mac"));
    }
    if o.get("w").is_some() {
        b = b.set_width(un(o, "w"));
    }
    if o.get("h").is_some() {
        b = b.set_height(un(o, "h"));
    }
    if o.get("alt").is_some() {
        b = b.set_alt_text(text(o, "alt"));
    }
    if let Some(v) = movement(st(o, "mvv")) {
        b = b.set_object_movement(v);
    }
    b
}

fn note(o: &Value) -> Note {
    let mut n = Note::new(text(o, "text"));
    if o.get("author").is_some() {
        n = n.set_author(text(o, "author"));
    }
    if o.get("prefixv").is_some() {
        n = n.add_author_prefix(bo(o, "prefixv"));
    }
    if o.get("visv").is_some() {
        n = n.set_visible(bo(o, "visv"));
    }
    if o.get("bgv").is_some() {
        n = n.set_background_color(crate::fmt::color(st(o, "bgv")));
    }
    if o.get("fnv").is_some() {
        n = n.set_font_name(st(o, "fnv"));
    }
    if o.get("fsv").is_some() {
        n = n.set_font_size(fl(o, "fsv"));
    }
    if o.get("famv").is_some() {
        n = n.set_font_family(un(o, "famv") as u8);
    }
    if o.get("w").is_some() {
        n = n.set_width(un(o, "w"));
    }
    if o.get("h").is_some() {
        n = n.set_height(un(o, "h"));
    }
    if o.get("alt").is_some() {
        n = n.set_alt_text(text(o, "alt"));
    }
    n
}

pub fn ws_op(ws: &mut Worksheet, op: &str, o: &Value, _im: &HashMap<String, Image>) -> Option<R> {
    let (r, c) = (un(o, "r"), us(o, "c"));
    let (xo, yo) = (un(o, "xo"), un(o, "yo"));
    macro_rules! tri {
        ($e:expr) => {
            match $e {
                Ok(v) => v,
                Err(e) => return Some(Err(e)),
            }
        };
    }
    Some(match op {
        "chart" => {
            let mut ch = Chart::new(ChartType::Column);
            ch.add_series().set_values((o.get("ref").and_then(|v| v.as_str()).unwrap_or("Sheet1"), 0, 0, 2, 0));
            if o.get("title").is_some() {
                ch.title().set_name(&text(o, "title"));
            }
            ws.insert_chart(r, c, &ch).map(|_| Value::Null)
        }
        "image" => {
            let m = tri!(image(&o["img"]));
            if st(o, "via") == "plain" { ws.insert_image(r, c, &m) } else { ws.insert_image_with_offset(r, c, &m, xo, yo) }.map(|_| Value::Null)
        }
        "fit" => ws.insert_image_fit_to_cell(r, c, &tri!(image(&o["img"])), bo(o, "keep")).map(|_| Value::Null),
        "embed" => {
            let m = tri!(image(&o["img"]));
            match crate::ops::ofmt(o) {
                Some(f) => ws.embed_image_with_format(r, c, &m, &f),
                None => ws.embed_image(r, c, &m),
            }
            .map(|_| Value::Null)
        }
        "bgimg" => {
            ws.insert_background_image(&tri!(image(&o["img"])));
            Ok(Value::Null)
        }
        "hfimg" => {
            let m = tri!(image(&o["img"]));
            let p = match st(o, "pos") {
                "L" => HeaderImagePosition::Left,
                "C" => HeaderImagePosition::Center,
                _ => HeaderImagePosition::Right,
            };
            if st(o, "which") == "header" { ws.set_header_image(&m, p) } else { ws.set_footer_image(&m, p) }.map(|_| Value::Null)
        }
        "badimg" => {
            let b: Vec<u8> = arr(o, "bytes").iter().map(|v| v.as_u64().unwrap() as u8).collect();
            let m = tri!(Image::new_from_buffer(&b));
            ws.insert_image(r, c, &m).map(|_| Value::Null)
        }
        "ochart" => {
            let ch = ochart(o);
            if st(o, "via") == "plain" { ws.insert_chart(r, c, &ch) } else { ws.insert_chart_with_offset(r, c, &ch, xo, yo) }.map(|_| Value::Null)
        }
        "shape" => {
            let s = tri!(shape(o));
            if st(o, "via") == "plain" { ws.insert_shape(r, c, &s) } else { ws.insert_shape_with_offset(r, c, &s, xo, yo) }.map(|_| Value::Null)
        }
        "button" => {
            let b = button(o);
            if st(o, "via") == "plain" { ws.insert_button(r, c, &b) } else { ws.insert_button_with_offset(r, c, &b, xo, yo) }.map(|_| Value::Null)
        }
        "note" => ws.insert_note(r, c, &note(o)).map(|_| Value::Null),
        "shownotes" => {
            ws.show_all_notes(bo(o, "v"));
            Ok(Value::Null)
        }
        "noteauthor" => {
            ws.set_default_note_author(text(o, "v"));
            Ok(Value::Null)
        }
        _ => return None,
    })
}

pub fn table_style(s: &str) -> TableStyle {
    match s {
        "None" => TableStyle::None,
        "Light1" => TableStyle::Light1,
        "Light2" => TableStyle::Light2,
        "Light3" => TableStyle::Light3,
        "Light4" => TableStyle::Light4,
        "Light5" => TableStyle::Light5,
        "Light6" => TableStyle::Light6,
        "Light7" => TableStyle::Light7,
        "Light8" => TableStyle::Light8,
        "Light9" => TableStyle::Light9,
        "Light10" => TableStyle::Light10,
        "Light11" => TableStyle::Light11,
        "Light12" => TableStyle::Light12,
        "Light13" => TableStyle::Light13,
        "Light14" => TableStyle::Light14,
        "Light15" => TableStyle::Light15,
        "Light16" => TableStyle::Light16,
        "Light17" => TableStyle::Light17,
        "Light18" => TableStyle::Light18,
        "Light19" => TableStyle::Light19,
        "Light20" => TableStyle::Light20,
        "Light21" => TableStyle::Light21,
        "Medium1" => TableStyle::Medium1,
        "Medium2" => TableStyle::Medium2,
        "Medium3" => TableStyle::Medium3,
        "Medium4" => TableStyle::Medium4,
        "Medium5" => TableStyle::Medium5,
        "Medium6" => TableStyle::Medium6,
        "Medium7" => TableStyle::Medium7,
        "Medium8" => TableStyle::Medium8,
        "Medium9" => TableStyle::Medium9,
        "Medium10" => TableStyle::Medium10,
        "Medium11" => TableStyle::Medium11,
        "Medium12" => TableStyle::Medium12,
        "Medium13" => TableStyle::Medium13,
        "Medium14" => TableStyle::Medium14,
        "Medium15" => TableStyle::Medium15,
        "Medium16" => TableStyle::Medium16,
        "Medium17" => TableStyle::Medium17,
        "Medium18" => TableStyle::Medium18,
        "Medium19" => TableStyle::Medium19,
        "Medium20" => TableStyle::Medium20,
        "Medium21" => TableStyle::Medium21,
        "Medium22" => TableStyle::Medium22,
        "Medium23" => TableStyle::Medium23,
        "Medium24" => TableStyle::Medium24,
        "Medium25" => TableStyle::Medium25,
        "Medium26" => TableStyle::Medium26,
        "Medium27" => TableStyle::Medium27,
        "Medium28" => TableStyle::Medium28,
        "Dark1" => TableStyle::Dark1,
        "Dark2" => TableStyle::Dark2,
        "Dark3" => TableStyle::Dark3,
        "Dark4" => TableStyle::Dark4,
        "Dark5" => TableStyle::Dark5,
        "Dark6" => TableStyle::Dark6,
        "Dark7" => TableStyle::Dark7,
        "Dark8" => TableStyle::Dark8,
        "Dark9" => TableStyle::Dark9,
        "Dark10" => TableStyle::Dark10,
        "Dark11" => TableStyle::Dark11,
        _ => panic!("harness: table style {s}"),
    }
}

/// A table: given options only are set, in the order of the record.
pub fn table(o: &Value) -> Table {
    let mut t = Table::new();
    for e in arr(o, "opts") {
        let v = e[1].as_bool().unwrap_or(false);
        t = match e[0].as_str().unwrap() {
            "header" => t.set_header_row(v),
            "total" => t.set_total_row(v),
            "banded" => t.set_banded_rows(v),
            "bandedc" => t.set_banded_columns(v),
            "first" => t.set_first_column(v),
            "last" => t.set_last_column(v),
            "filter" => t.set_autofilter(v),
            "name" => t.set_name(e[1].as_str().unwrap()),
            "style" => t.set_style(table_style(e[1].as_str().unwrap())),
            "cols" => {
                let cols: Vec<TableColumn> = arr(o, "given").iter().map(|c| column(c)).collect();
                t.set_columns(&cols)
            }
            k => panic!("harness: table option {k}"),
        };
    }
    t
}

fn column(o: &Value) -> TableColumn {
    let mut c = TableColumn::new();
    if o.get("header").is_some() {
        c = c.set_header(text(o, "header"));
    }
    if let Some(f) = o.get("tfn").and_then(|v| v.as_str()) {
        c = c.set_total_function(match f {
            "average" => TableFunction::Average,
            "count" => TableFunction::Count,
            "countNums" => TableFunction::CountNumbers,
            "max" => TableFunction::Max,
            "min" => TableFunction::Min,
            "sum" => TableFunction::Sum,
            "stdDev" => TableFunction::StdDev,
            "var" => TableFunction::Var,
            "custom" => TableFunction::Custom(Formula::new(st(o, "tformula"))),
            _ => TableFunction::None,
        });
    }
    if o.get("label").is_some() {
        c = c.set_total_label(text(o, "label"));
    }
    if o.get("formula").is_some() {
        c = c.set_formula(st(o, "formula"));
    }
    if let Some(f) = o.get("format") {
        c = c.set_format(crate::fmt::format(f));
    }
    if let Some(f) = o.get("hformat") {
        c = c.set_header_format(crate::fmt::format(f));
    }
    c
}
