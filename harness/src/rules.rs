//! Conditional formats, data validations and sparklines.
use crate::fmt::{color, format};
use crate::ops::{arr, bo, fl, st, text, un, us, R};
use rust_xlsxwriter::*;
use serde_json::Value;

fn bad(what: &str, v: &str) -> ! {
    panic!("harness: {what} {v}")
}

fn date(v: &str) -> ExcelDateTime {
    ExcelDateTime::parse_from_str(v).unwrap()
}

fn value(v: &Value) -> ConditionalFormatValue {
    let x = st(v, "v");
    match st(v, "t") {
        "i" => x.parse::<i32>().unwrap().into(),
        "n" => x.parse::<f64>().unwrap().into(),
        "u" => x.parse::<u16>().unwrap().into(),
        "s" => x.into(),
        "f" => Formula::new(x).into(),
        "b" => (x == "TRUE").into(),
        "d" => date(x).into(),
        t => bad("value", t),
    }
}

fn cell_rule<T: IntoConditionalFormatValue>(k: &str, a: T, b: Option<T>) -> ConditionalFormatCellRule<T> {
    use ConditionalFormatCellRule::*;
    match k {
        "equal" => EqualTo(a),
        "notEqual" => NotEqualTo(a),
        "greaterThan" => GreaterThan(a),
        "greaterThanOrEqual" => GreaterThanOrEqualTo(a),
        "lessThan" => LessThan(a),
        "lessThanOrEqual" => LessThanOrEqualTo(a),
        "between" => Between(a, b.unwrap()),
        "notBetween" => NotBetween(a, b.unwrap()),
        _ => bad("rule", k),
    }
}

fn typed(f: ConditionalFormatCell, o: &Value) -> ConditionalFormatCell {
    let vals = arr(o, "vals");
    let k = st(o, "rule");
    let same = vals.iter().all(|v| st(v, "t") == st(&vals[0], "t"));
    let s = |n: usize| vals.get(n).map(|v| st(v, "v"));
    if bo(o, "typed") && same {
        macro_rules! go {
            ($f:expr) => {
                f.set_rule(cell_rule(k, s(0).map($f).unwrap(), s(1).map($f)))
            };
        }
        return match st(&vals[0], "t") {
            "i" => go!(|x| x.parse::<i32>().unwrap()),
            "n" => go!(|x| x.parse::<f64>().unwrap()),
            "u" => go!(|x| x.parse::<u16>().unwrap()),
            "s" => go!(|x| x),
            "f" => go!(|x| Formula::new(x)),
            "b" => go!(|x| x == "TRUE"),
            "d" => go!(|x| date(x)),
            t => bad("value", t),
        };
    }
    f.set_rule(cell_rule(k, value(&vals[0]), vals.get(1).map(|v| value(v))))
}

fn cf_type(k: &str) -> ConditionalFormatType {
    use ConditionalFormatType::*;
    match k {
        "auto" => Automatic,
        "min" => Lowest,
        "num" => Number,
        "percent" => Percent,
        "formula" => self::ConditionalFormatType::Formula,
        "percentile" => Percentile,
        "max" => Highest,
        _ => bad("type", k),
    }
}

fn icon_type(k: &str) -> ConditionalFormatIconType {
    use ConditionalFormatIconType::*;
    match k {
        "3Arrows" => ThreeArrows,
        "3ArrowsGray" => ThreeArrowsGray,
        "3Flags" => ThreeFlags,
        "3TrafficLights1" => ThreeTrafficLights,
        "3TrafficLights2" => ThreeTrafficLightsWithRim,
        "3Signs" => ThreeSigns,
        "3Symbols" => ThreeSymbolsCircled,
        "3Symbols2" => ThreeSymbols,
        "3Stars" => ThreeStars,
        "3Triangles" => ThreeTriangles,
        "4Arrows" => FourArrows,
        "4ArrowsGray" => FourArrowsGray,
        "4RedToBlack" => FourRedToBlack,
        "4Rating" => FourHistograms,
        "4TrafficLights" => FourTrafficLights,
        "5Arrows" => FiveArrows,
        "5ArrowsGray" => FiveArrowsGray,
        "5Rating" => FiveHistograms,
        "5Quarters" => FiveQuadrants,
        "5Boxes" => FiveBoxes,
        _ => bad("icons", k),
    }
}

fn icon(i: &Value) -> ConditionalFormatCustomIcon {
    let mut x = ConditionalFormatCustomIcon::new();
    for e in i.as_array().unwrap() {
        x = match st(e, "k") {
            "rule" => x.set_rule(cf_type(st(e, "ty")), value(&e["val"])),
            "icon" => x.set_icon_type(icon_type(st(e, "ty")), un(e, "n") as u8),
            "none" => x.set_no_icon(bo(e, "b")),
            "gt" => x.set_greater_than(bo(e, "b")),
            k => bad("icon", k),
        };
    }
    x
}

fn cf(ws: &mut Worksheet, o: &Value) -> R {
    let multi = o.get("multi").is_some();
    macro_rules! add {
        ($f:expr, $fmt:expr) => {{
            let mut f = $f;
            if multi {
                f = f.set_multi_range(st(o, "multi"));
            }
            if o.get("stop").is_some() {
                f = f.set_stop_if_true(bo(o, "stop"));
            }
            ws.add_conditional_format(un(o, "r"), us(o, "c"), un(o, "r2"), us(o, "c2"), &f).map(|_| Value::Null)
        }};
        ($f:expr) => {{
            let mut f = $f;
            if bo(o, "hf") {
                f = f.set_format(format(&o["f"]));
            }
            add!(f, ())
        }};
    }
    let rule = st(o, "rule");
    let t = st(o, "text").to_string();
    let n = un(o, "n") as u16;
    let inv = bo(o, "invert");
    match st(o, "k") {
        "cell" => add!(if rule.is_empty() { ConditionalFormatCell::new() } else { typed(ConditionalFormatCell::new(), o) }),
        "blank" => add!(if inv { ConditionalFormatBlank::new().invert() } else { ConditionalFormatBlank::new() }),
        "error" => add!(if inv { ConditionalFormatError::new().invert() } else { ConditionalFormatError::new() }),
        "dup" => add!(if inv { ConditionalFormatDuplicate::new().invert() } else { ConditionalFormatDuplicate::new() }),
        "formula" => {
            let mut f = ConditionalFormatFormula::new();
            if o.get("fv").is_some() {
                f = f.set_rule(st(o, "fv"));
            }
            add!(f)
        }
        "average" => {
            use ConditionalFormatAverageRule::*;
            let mut f = ConditionalFormatAverage::new();
            if !rule.is_empty() {
                f = f.set_rule(match rule {
                    "above" => AboveAverage,
                    "below" => BelowAverage,
                    "eqabove" => EqualOrAboveAverage,
                    "eqbelow" => EqualOrBelowAverage,
                    "1above" => OneStandardDeviationAbove,
                    "1below" => OneStandardDeviationBelow,
                    "2above" => TwoStandardDeviationsAbove,
                    "2below" => TwoStandardDeviationsBelow,
                    "3above" => ThreeStandardDeviationsAbove,
                    "3below" => ThreeStandardDeviationsBelow,
                    _ => bad("average", rule),
                });
            }
            add!(f)
        }
        "top" => {
            let mut f = ConditionalFormatTop::new();
            if !rule.is_empty() {
                f = f.set_rule(match rule {
                    "top" => ConditionalFormatTopRule::Top(n),
                    "bottom" => ConditionalFormatTopRule::Bottom(n),
                    "topp" => ConditionalFormatTopRule::TopPercent(n),
                    "bottomp" => ConditionalFormatTopRule::BottomPercent(n),
                    _ => bad("top", rule),
                });
            }
            add!(f)
        }
        "text" => {
            let mut f = ConditionalFormatText::new();
            if !rule.is_empty() {
                f = f.set_rule(match rule {
                    "contains" => ConditionalFormatTextRule::Contains(t),
                    "not" => ConditionalFormatTextRule::DoesNotContain(t),
                    "begins" => ConditionalFormatTextRule::BeginsWith(t),
                    "ends" => ConditionalFormatTextRule::EndsWith(t),
                    _ => bad("text", rule),
                });
            }
            add!(f)
        }
        "date" => {
            use ConditionalFormatDateRule::*;
            let mut f = ConditionalFormatDate::new();
            if !rule.is_empty() {
                f = f.set_rule(match rule {
                    "yesterday" => Yesterday,
                    "today" => Today,
                    "tomorrow" => Tomorrow,
                    "last7Days" => Last7Days,
                    "lastWeek" => LastWeek,
                    "thisWeek" => ThisWeek,
                    "nextWeek" => NextWeek,
                    "lastMonth" => LastMonth,
                    "thisMonth" => ThisMonth,
                    "nextMonth" => NextMonth,
                    _ => bad("date", rule),
                });
            }
            add!(f)
        }
        "color2" => {
            let mut f = ConditionalFormat2ColorScale::new();
            for e in arr(o, "set") {
                f = match st(e, "k") {
                    "min" => f.set_minimum(cf_type(st(e, "ty")), value(&e["val"])),
                    "max" => f.set_maximum(cf_type(st(e, "ty")), value(&e["val"])),
                    "minc" => f.set_minimum_color(color(st(e, "c"))),
                    "maxc" => f.set_maximum_color(color(st(e, "c"))),
                    k => bad("scale", k),
                };
            }
            add!(f, ())
        }
        "color3" => {
            let mut f = ConditionalFormat3ColorScale::new();
            for e in arr(o, "set") {
                f = match st(e, "k") {
                    "min" => f.set_minimum(cf_type(st(e, "ty")), value(&e["val"])),
                    "mid" => f.set_midpoint(cf_type(st(e, "ty")), value(&e["val"])),
                    "max" => f.set_maximum(cf_type(st(e, "ty")), value(&e["val"])),
                    "minc" => f.set_minimum_color(color(st(e, "c"))),
                    "midc" => f.set_midpoint_color(color(st(e, "c"))),
                    "maxc" => f.set_maximum_color(color(st(e, "c"))),
                    k => bad("scale", k),
                };
            }
            add!(f, ())
        }
        "bar" => {
            let mut f = ConditionalFormatDataBar::new();
            for e in arr(o, "set") {
                f = match st(e, "k") {
                    "min" => f.set_minimum(cf_type(st(e, "ty")), value(&e["val"])),
                    "max" => f.set_maximum(cf_type(st(e, "ty")), value(&e["val"])),
                    "fill" => f.set_fill_color(color(st(e, "c"))),
                    "border" => f.set_border_color(color(st(e, "c"))),
                    "nfill" => f.set_negative_fill_color(color(st(e, "c"))),
                    "nborder" => f.set_negative_border_color(color(st(e, "c"))),
                    "axisc" => f.set_axis_color(color(st(e, "c"))),
                    "solid" => f.set_solid_fill(bo(e, "b")),
                    "off" => f.set_border_off(bo(e, "b")),
                    "only" => f.set_bar_only(bo(e, "b")),
                    "dir" => f.set_direction(match st(e, "c") {
                        "context" => ConditionalFormatDataBarDirection::Context,
                        "leftToRight" => ConditionalFormatDataBarDirection::LeftToRight,
                        "rightToLeft" => ConditionalFormatDataBarDirection::RightToLeft,
                        k => bad("direction", k),
                    }),
                    "axis" => f.set_axis_position(match st(e, "c") {
                        "automatic" => ConditionalFormatDataBarAxisPosition::Automatic,
                        "middle" => ConditionalFormatDataBarAxisPosition::Midpoint,
                        "none" => ConditionalFormatDataBarAxisPosition::None,
                        k => bad("axis", k),
                    }),
                    "classic" => f.use_classic_style(),
                    k => bad("bar", k),
                };
            }
            add!(f, ())
        }
        "icons" => {
            let mut f = ConditionalFormatIconSet::new();
            for e in arr(o, "set") {
                f = match st(e, "k") {
                    "type" => f.set_icon_type(icon_type(st(e, "ty"))),
                    "reverse" => f.reverse_icons(bo(e, "b")),
                    "only" => f.show_icons_only(bo(e, "b")),
                    "icons" => f.set_icons(&arr(e, "icons").iter().map(|i| icon(i)).collect::<Vec<_>>()),
                    k => bad("icons", k),
                };
            }
            add!(f, ())
        }
        k => bad("conditional format", k),
    }
}

fn dv_rule<T: IntoDataValidationValue>(k: &str, a: T, b: Option<T>) -> DataValidationRule<T> {
    use DataValidationRule::*;
    match k {
        "equal" => EqualTo(a),
        "notEqual" => NotEqualTo(a),
        "greaterThan" => GreaterThan(a),
        "greaterThanOrEqual" => GreaterThanOrEqualTo(a),
        "lessThan" => LessThan(a),
        "lessThanOrEqual" => LessThanOrEqualTo(a),
        "between" => Between(a, b.unwrap()),
        "notBetween" => NotBetween(a, b.unwrap()),
        _ => bad("rule", k),
    }
}

fn validation(o: &Value) -> Result<DataValidation, XlsxError> {
    let mut d = DataValidation::new();
    for e in arr(o, "set") {
        let vals = arr(e, "vals");
        let s = |n: usize| vals.get(n).map(|v| st(v, "v"));
        macro_rules! rule {
            ($f:expr) => {
                dv_rule(st(e, "rule"), s(0).map($f).unwrap(), s(1).map($f))
            };
        }
        let fm = vals.first().map_or("", |v| st(v, "t")) == "f";
        d = match st(e, "k") {
            "whole" if fm => d.allow_whole_number_formula(rule!(|x| Formula::new(x))),
            "whole" => d.allow_whole_number(rule!(|x| x.parse::<i32>().unwrap())),
            "decimal" if fm => d.allow_decimal_number_formula(rule!(|x| Formula::new(x))),
            "decimal" => d.allow_decimal_number(rule!(|x| x.parse::<f64>().unwrap())),
            "date" if fm => d.allow_date_formula(rule!(|x| Formula::new(x))),
            "date" => d.allow_date(rule!(|x| date(x))),
            "time" if fm => d.allow_time_formula(rule!(|x| Formula::new(x))),
            "time" => d.allow_time(rule!(|x| date(x))),
            "textLength" if fm => d.allow_text_length_formula(rule!(|x| Formula::new(x))),
            "textLength" => d.allow_text_length(rule!(|x| x.parse::<u32>().unwrap())),
            "list" if e.get("fv").is_some() => d.allow_list_formula(Formula::new(st(e, "fv"))),
            "list" => d.allow_list_strings(&arr(e, "items").iter().map(|v| text_of(v)).collect::<Vec<_>>())?,
            "custom" => d.allow_custom(Formula::new(st(e, "fv"))),
            "any" => d.allow_any_value(),
            "blank" => d.ignore_blank(bo(e, "b")),
            "dropdown" => d.show_dropdown(bo(e, "b")),
            "showinput" => d.show_input_message(bo(e, "b")),
            "showerror" => d.show_error_message(bo(e, "b")),
            "intitle" => d.set_input_title(text(e, "v"))?,
            "inmsg" => d.set_input_message(text(e, "v"))?,
            "errtitle" => d.set_error_title(text(e, "v"))?,
            "errmsg" => d.set_error_message(text(e, "v"))?,
            "style" => d.set_error_style(match st(e, "v") {
                "stop" => DataValidationErrorStyle::Stop,
                "warning" => DataValidationErrorStyle::Warning,
                "information" => DataValidationErrorStyle::Information,
                k => bad("style", k),
            }),
            "multi" => d.set_multi_range(st(e, "v")),
            k => bad("validation", k),
        };
    }
    Ok(d)
}

fn text_of(v: &Value) -> String {
    v.as_str().unwrap().to_string()
}

fn sparkline(o: &Value) -> Sparkline {
    let mut x = Sparkline::new();
    let range = |e: &Value| (st(e, "sheet").to_string(), un(e, "r"), us(e, "c"), un(e, "r2"), us(e, "c2"));
    for e in arr(o, "set") {
        let b = bo(e, "b");
        x = match st(e, "k") {
            "range" if e.get("text").is_some() => x.set_range(st(e, "text")),
            "range" => {
                let (s, r, c, r2, c2) = range(e);
                x.set_range((s.as_str(), r, c, r2, c2))
            }
            "dates" if e.get("text").is_some() => x.set_date_range(st(e, "text")),
            "dates" => {
                let (s, r, c, r2, c2) = range(e);
                x.set_date_range((s.as_str(), r, c, r2, c2))
            }
            "type" => x.set_type(match st(e, "v") {
                "line" => SparklineType::Line,
                "column" => SparklineType::Column,
                "stacked" => SparklineType::WinLose,
                k => bad("sparkline", k),
            }),
            "high" => x.show_high_point(b),
            "low" => x.show_low_point(b),
            "first" => x.show_first_point(b),
            "last" => x.show_last_point(b),
            "negative" => x.show_negative_points(b),
            "markers" => x.show_markers(b),
            "axis" => x.show_axis(b),
            "hidden" => x.show_hidden_data(b),
            "rtl" => x.set_right_to_left(b),
            "empty" => x.show_empty_cells_as(match st(e, "v") {
                "gap" => ChartEmptyCells::Gaps,
                "zero" => ChartEmptyCells::Zero,
                "span" => ChartEmptyCells::Connected,
                k => bad("empty", k),
            }),
            "cseries" => x.set_sparkline_color(color(st(e, "c"))),
            "chigh" => x.set_high_point_color(color(st(e, "c"))),
            "clow" => x.set_low_point_color(color(st(e, "c"))),
            "cfirst" => x.set_first_point_color(color(st(e, "c"))),
            "clast" => x.set_last_point_color(color(st(e, "c"))),
            "cnegative" => x.set_negative_points_color(color(st(e, "c"))),
            "cmarkers" => x.set_markers_color(color(st(e, "c"))),
            "weight" => x.set_line_weight(fl(e, "v")),
            "max" => x.set_custom_max(fl(e, "v")),
            "min" => x.set_custom_min(fl(e, "v")),
            "gmax" => x.set_group_max(b),
            "gmin" => x.set_group_min(b),
            "colorder" => x.set_column_order(b),
            "style" => x.set_style(un(e, "n") as u8),
            k => bad("sparkline", k),
        };
    }
    x
}

pub fn rule_op(ws: &mut Worksheet, op: &str, o: &Value) -> Option<R> {
    Some(match op {
        "cf" => cf(ws, o),
        "dv" => validation(o).and_then(|d| ws.add_data_validation(un(o, "r"), us(o, "c"), un(o, "r2"), us(o, "c2"), &d).map(|_| Value::Null)),
        "sparkline" => ws.add_sparkline(un(o, "r"), us(o, "c"), &sparkline(o)).map(|_| Value::Null),
        "sparkgroup" => {
            ws.add_sparkline_group(un(o, "r"), us(o, "c"), un(o, "r2"), us(o, "c2"), &sparkline(o)).map(|_| Value::Null)
        }
        _ => return None,
    })
}
