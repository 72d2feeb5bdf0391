//! Any text in any of the places of a workbook that hold one.
use crate::ops::{st, text, un, Ctx, R};
use rust_xlsxwriter::*;
use serde_json::{json, Value};

/// The part of a text which is not free: what the place needs around it.
fn quoted(v: &str) -> String {
    format!("=\"{}\"", v.replace('"', "\"\""))
}

fn png() -> Image {
    let i = json!({"t": "png", "w": 8, "h": 8, "id": 1});
    Image::new_from_buffer(&crate::objects::image_bytes(&i)).unwrap()
}

thread_local! {
    /// The name of the worksheet a chart is made for.
    static NAME: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

fn values() -> ChartRange {
    NAME.with(|n| ChartRange::new_from_range(&n.borrow(), 0, 0, 1, 0))
}

fn chart() -> Chart {
    let mut c = Chart::new(ChartType::Column);
    c.add_series().set_values(&values());
    c
}

pub fn wb_op(cx: &mut Ctx, op: &str, o: &Value) -> Option<R> {
    if op != "text" || un(o, "s") < 1000 {
        return None;
    }
    let v = text(o, "v");
    let slot = st(o, "slot");
    let k = un(o, "r");
    if slot == "defname" {
        return Some(cx.wb.define_name(format!("N{k:05}"), &quoted(&v)).map(|_| Value::Null));
    }
    Some(Ok(Value::Null)).inspect(|_| {
        let all = cx.texts.entry(slot.to_string()).or_default();
        all.retain(|e| e.0 != k);
        all.push((k, v));
        let one = |s: &str| cx.texts.get(s).and_then(|t| t.last()).map(|t| t.1.clone());
        let mut p = DocProperties::new();
        macro_rules! set {
            ($($s:literal $f:ident),*) => {$(
                if let Some(v) = one($s) {
                    p = p.$f(v);
                }
            )*};
        }
        set!("p_title" set_title, "p_subject" set_subject, "p_author" set_author, "p_manager" set_manager,
             "p_company" set_company, "p_category" set_category, "p_keywords" set_keywords,
             "p_comment" set_comment, "p_status" set_status, "p_base" set_hyperlink_base);
        for (k, v) in cx.texts.get("c_value").into_iter().flatten() {
            p = p.set_custom_property(format!("P{k:05}"), v.as_str());
        }
        for (k, v) in cx.texts.get("c_name").into_iter().flatten() {
            p = p.set_custom_property(v.as_str(), *k as i32);
        }
        cx.wb.set_properties(&p);
    })
}

pub fn ws_op(ws: &mut Worksheet, op: &str, o: &Value) -> Option<R> {
    if op != "text" {
        return None;
    }
    let v = text(o, "v");
    let r = 6 * un(o, "r") as u32;
    macro_rules! ok {
        ($e:expr) => {
            $e.map(|_| Value::Null)
        };
    }
    macro_rules! tri {
        ($e:expr) => {
            match $e {
                Ok(x) => x,
                Err(e) => return Some(Err(e)),
            }
        };
    }
    let fm = Format::new();
    let red = Format::new().set_bold();
    let dv = |ws: &mut Worksheet, d: DataValidation| ok!(ws.add_data_validation(r, 12, r, 12, &d));
    let cell = |ws: &mut Worksheet, c: ChartTitleSlot| c.put(ws, r, v.clone());
    Some(match st(o, "slot") {
        "str" => match r % 4 {
            0 => ok!(ws.write(r, 1, &v)),
            _ => ok!(ws.write_string(r, 1, &v)),
        },
        "strfmt" => ok!(ws.write_string_with_format(r, 11, &v, &red)),
        "rich1" => ok!(ws.write_rich_string(r, 2, &[(&red, v.as_str()), (&fm, "b")])),
        "rich2" => ok!(ws.write_rich_string(r, 3, &[(&fm, "a"), (&red, v.as_str())])),
        "formula" => ok!(ws.write_formula(r, 4, quoted(&v).as_str())),
        "result" => ok!(ws.write_formula(r, 5, Formula::new("=A1").set_result(format!("r{v}")))),
        "array" => ok!(ws.write_array_formula(r, 6, r, 6, quoted(&v).as_str())),
        "urltext" => ok!(ws.write_url_with_text(r, 7, "http://a.b/c", &v)),
        "tip" => ok!(ws.write_url(r, 8, Url::new("http://a.b/c").set_tip(&v))),
        "loc" => ok!(ws.write_url(r, 9, format!("internal:{v}").as_str())),
        "merge" => ok!(ws.merge_range(r, 14, r, 15, &v, &fm)),
        "cached" => (|| {
            ws.write_string(r, 16, &v)?;
            let name = ws.name();
            let mut c = Chart::new(ChartType::Column);
            c.add_series().set_values((name.as_str(), r, 16, r, 16)).set_name(&ChartRange::new_from_range(&name, r, 16, r, 16));
            ok!(ws.insert_chart(r, 50, &c))
        })(),
        "note" => ok!(ws.insert_note(r, 10, &Note::new(&v).add_author_prefix(false))),
        "prefix" => ok!(ws.insert_note(r, 17, &Note::new("n").set_author(&v))),
        "notealt" => ok!(ws.insert_note(r, 18, &Note::new("n").add_author_prefix(false).set_alt_text(&v))),
        "dvtitle" => dv(ws, tri!(DataValidation::new().set_input_title(&v))),
        "dvmsg" => dv(ws, tri!(DataValidation::new().set_input_message(&v))),
        "dvetitle" => dv(ws, tri!(DataValidation::new().set_error_title(&v))),
        "dvemsg" => dv(ws, tri!(DataValidation::new().set_error_message(&v))),
        "dvlist" => dv(ws, tri!(DataValidation::new().allow_list_strings(&["x", v.as_str()]))),
        "dvcustom" => dv(ws, DataValidation::new().allow_custom(Formula::new(quoted(&v)))),
        "cftext" => ok!(ws.add_conditional_format(r, 13, r, 13, &ConditionalFormatText::new().set_rule(ConditionalFormatTextRule::Contains(v)))),
        "cfformula" => ok!(ws.add_conditional_format(r, 13, r, 13, &ConditionalFormatFormula::new().set_rule(quoted(&v).as_str()))),
        "cfcell" => ok!(ws.add_conditional_format(r, 13, r, 13, &ConditionalFormatCell::new().set_rule(ConditionalFormatCellRule::EqualTo(v)))),
        "colname" => table(ws, r, TableColumn::new().set_header(&v)),
        "label" => table(ws, r, TableColumn::new().set_total_label(&v)),
        "colformula" => table(ws, r, TableColumn::new().set_formula(Formula::new(quoted(&v)))),
        "totalformula" => table(ws, r, TableColumn::new().set_total_function(TableFunction::Custom(Formula::new(quoted(&v))))),
        "alt" => ok!(ws.insert_image(r, 30, &png().set_alt_text(&v))),
        "imgtip" => ok!(ws.insert_image(r, 31, &tri!(png().set_url(Url::new("http://a.b/c").set_tip(&v))))),
        "shape" => ok!(ws.insert_shape(r, 32, &Shape::textbox().set_text(&v))),
        "shapealt" => ok!(ws.insert_shape(r, 33, &Shape::textbox().set_text("s").set_alt_text(&v))),
        "caption" => ok!(ws.insert_button(r, 34, &Button::new().set_caption(&v))),
        "buttonalt" => ok!(ws.insert_button(r, 35, &Button::new().set_alt_text(&v))),
        "macro" => ok!(ws.insert_button(r, 36, &Button::new().set_macro(&v))),
        "chname" => cell(ws, ChartTitleSlot(37, |c, v| { c.set_name(v); })),
        "chalt" => cell(ws, ChartTitleSlot(38, |c, v| { c.set_alt_text(v); })),
        "chtitle" => cell(ws, ChartTitleSlot(39, |c, v| { c.title().set_name(v); })),
        "sername" => cell(ws, ChartTitleSlot(40, |c, v| { c.add_series().set_values(&values()).set_name(v); })),
        "xname" => cell(ws, ChartTitleSlot(41, |c, v| { c.x_axis().set_name(v); })),
        "dlabel" => cell(ws, ChartTitleSlot(42, |c, v| {
            c.add_series().set_values(&values()).set_custom_data_labels(&[ChartDataLabel::new().set_value(v).to_custom()]);
        })),
        "trend" => cell(ws, ChartTitleSlot(43, |c, v| {
            let mut t = ChartTrendline::new();
            t.set_type(ChartTrendlineType::Linear).set_name(v);
            c.add_series().set_values(&values()).set_trendline(&t);
        })),
        "axisfmt" => cell(ws, ChartTitleSlot(44, |c, v| { c.y_axis().set_num_format(v); })),
        "titlefont" => cell(ws, ChartTitleSlot(45, |c, v| {
            c.title().set_name("t").set_font(ChartFont::new().set_name(v));
        })),
        "numfmt" => ok!(ws.write_blank(r, 19, &Format::new().set_num_format(v))),
        "font" => ok!(ws.write_blank(r, 20, &Format::new().set_font_name(v))),
        "dxfnumfmt" => ok!(ws.add_conditional_format(r, 21, r, 21, &ConditionalFormatBlank::new().set_format(Format::new().set_num_format(v)))),
        "protrange" => ok!(ws.unprotect_range_with_options(r, 22, r, 22, &v, "")),
        "nan" => {
            ws.set_nan_value(&v);
            ok!(ws.write_number(r, 24, f64::NAN))
        }
        "header" => {
            ws.set_header(&v);
            Ok(Value::Null)
        }
        "footer" => {
            ws.set_footer(&v);
            Ok(Value::Null)
        }
        "name" => ok!(ws.set_name(&v)),
        "listfilter" | "customfilter" => (|| {
            let f = FilterCondition::new();
            ws.autofilter(0, 25, 3, 26)?;
            if st(o, "slot") == "listfilter" {
                ws.filter_column(25, &f.add_list_filter(v.as_str()))?;
            } else {
                ws.filter_column(26, &f.add_custom_filter(FilterCriteria::EqualTo, v.as_str()))?;
            }
            Ok(Value::Null)
        })(),
        s => panic!("harness: slot {s}"),
    })
}

/// A chart in a column of its own, with a text set in it.
struct ChartTitleSlot(u16, fn(&mut Chart, &str));
impl ChartTitleSlot {
    fn put(&self, ws: &mut Worksheet, r: u32, v: String) -> R {
        NAME.with(|n| *n.borrow_mut() = ws.name());
        let mut c = chart();
        self.1(&mut c, &v);
        ws.insert_chart(r, self.0, &c).map(|_| Value::Null)
    }
}

fn table(ws: &mut Worksheet, r: u32, c: TableColumn) -> R {
    ws.add_table(r, 27, r + 2, 28, &Table::new().set_total_row(true).set_columns(&[c])).map(|_| Value::Null)
}
