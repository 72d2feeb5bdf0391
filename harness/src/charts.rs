//! Charts with every option.  Options come as lists of [setter, argument]
//! which are applied in order.
use crate::fmt::color;
use crate::ops::{arr, num, st, un, us, R};
use rust_xlsxwriter::*;
use serde_json::Value;

macro_rules! en {
    ($f:ident, $t:ident, $($v:ident)*) => {
        fn $f(v: &Value) -> $t {
            match v.as_str().unwrap_or("") {
                $(stringify!($v) => $t::$v,)*
                x => panic!("harness: {} of {}", x, stringify!($t)),
            }
        }
    };
}
en!(ctype, ChartType, Area AreaStacked AreaPercentStacked Bar BarStacked BarPercentStacked Column ColumnStacked ColumnPercentStacked Doughnut Line LineStacked LinePercentStacked Pie Radar RadarWithMarkers RadarFilled Scatter ScatterStraight ScatterStraightWithMarkers ScatterSmooth ScatterSmoothWithMarkers Stock);
en!(mtype, ChartMarkerType, Square Diamond Triangle X Star ShortDash LongDash Circle PlusSign);
en!(lpos, ChartDataLabelPosition, Default Center Right Left Above Below InsideBase InsideEnd OutsideEnd BestFit);
en!(alpos, ChartAxisLabelPosition, NextTo High Low None);
en!(tick, ChartAxisTickType, None Inside Outside Cross);
en!(dunit, ChartAxisDateUnitType, Days Months Years);
en!(unit, ChartAxisDisplayUnitType, None Hundreds Thousands TenThousands HundredThousands Millions TenMillions HundredMillions Billions Trillions);
en!(legpos, ChartLegendPosition, Right Left Top Bottom TopRight);
en!(empty, ChartEmptyCells, Gaps Zero Connected);
en!(dash, ChartLineDashType, Solid RoundDot SquareDot Dash DashDot LongDash LongDashDot LongDashDotDot);
en!(pattern, ChartPatternFillType, Dotted5Percent Dotted10Percent Dotted20Percent Dotted25Percent Dotted30Percent Dotted40Percent Dotted50Percent Dotted60Percent Dotted70Percent Dotted75Percent Dotted80Percent Dotted90Percent DiagonalStripesLightDownwards DiagonalStripesLightUpwards DiagonalStripesDarkDownwards DiagonalStripesDarkUpwards DiagonalStripesWideDownwards DiagonalStripesWideUpwards VerticalStripesLight HorizontalStripesLight VerticalStripesNarrow HorizontalStripesNarrow VerticalStripesDark HorizontalStripesDark StripesBackslashes StripesForwardSlashes HorizontalStripesAlternating VerticalStripesAlternating SmallConfetti LargeConfetti Zigzag Wave DiagonalBrick HorizontalBrick Weave Plaid Divot DottedGrid DottedDiamond Shingle Trellis Sphere SmallGrid LargeGrid SmallCheckerboard LargeCheckerboard OutlinedDiamondGrid SolidDiamondGrid);
en!(grad, ChartGradientFillType, Linear Radial Rectangular Path);
en!(edir, ChartErrorBarsDirection, Both Minus Plus);
en!(align, ChartAxisLabelAlignment, Center Left Right);

/// A text, a reference as text, a tuple or a range object.
macro_rules! slot {
    ($x:expr, $m:ident, $v:expr) => {{
        let v: &Value = $v;
        if let Some(r) = v.get("rg") {
            let (n, a, b, c, d) = (r[0].as_str().unwrap(), i(&r[1]), i(&r[2]), i(&r[3]), i(&r[4]));
            match st(v, "via") {
                "obj" => $x.$m(&ChartRange::new_from_range(n, a, b as u16, c, d as u16)),
                "cell" => $x.$m((n, a, b as u16)),
                _ => $x.$m((n, a, b as u16, c, d as u16)),
            };
        } else {
            let t = crate::ops::text(v, "t");
            match st(v, "via") {
                "obj" => $x.$m(&ChartRange::new_from_string(&t)),
                "string" => $x.$m(&t),
                _ => $x.$m(t.as_str()),
            };
        }
    }};
}
fn range(v: &Value) -> ChartRange {
    if let Some(r) = v.get("rg") {
        ChartRange::new_from_range(r[0].as_str().unwrap(), i(&r[1]), i(&r[2]) as u16, i(&r[3]), i(&r[4]) as u16)
    } else {
        ChartRange::new_from_string(&crate::ops::text(v, "t"))
    }
}
fn i(v: &Value) -> u32 {
    v.as_u64().unwrap() as u32
}
fn f(v: &Value) -> f64 {
    match v {
        Value::String(s) => num(s),
        v => v.as_f64().unwrap(),
    }
}
fn b(v: &Value) -> bool {
    v.as_bool().unwrap()
}
fn s(v: &Value) -> String {
    v.as_str().unwrap().to_string()
}
fn col(v: &Value) -> Color {
    color(v.as_str().unwrap())
}
fn each<'a>(v: &'a Value) -> impl Iterator<Item = (&'a str, &'a Value)> {
    v.as_array().map(|a| a.iter()).unwrap_or_default().map(|e| (e["k"].as_str().unwrap(), &e["v"]))
}
fn unknown(what: &str, k: &str) -> ! {
    panic!("harness: {what} option {k}")
}

fn line(o: &Value) -> ChartLine {
    let mut x = ChartLine::new();
    for (k, v) in each(o) {
        match k {
            "color" => x.set_color(col(v)),
            "width" => x.set_width(f(v)),
            "dash" => x.set_dash_type(dash(v)),
            "transparency" => x.set_transparency(i(v) as u8),
            "hidden" => x.set_hidden(b(v)),
            _ => unknown("line", k),
        };
    }
    x
}
fn solid(o: &Value) -> ChartSolidFill {
    let mut x = ChartSolidFill::new();
    for (k, v) in each(o) {
        match k {
            "color" => x.set_color(col(v)),
            "transparency" => x.set_transparency(i(v) as u8),
            _ => unknown("solid", k),
        };
    }
    x
}
fn pat(o: &Value) -> ChartPatternFill {
    let mut x = ChartPatternFill::new();
    for (k, v) in each(o) {
        match k {
            "pattern" => x.set_pattern(pattern(v)),
            "fg" => x.set_foreground_color(col(v)),
            "bg" => x.set_background_color(col(v)),
            _ => unknown("pattern", k),
        };
    }
    x
}
fn gradient(o: &Value) -> ChartGradientFill {
    let mut x = ChartGradientFill::new();
    for (k, v) in each(o) {
        match k {
            "type" => x.set_type(grad(v)),
            "angle" => x.set_angle(i(v) as u16),
            "stops" => {
                let l: Vec<_> = v.as_array().unwrap().iter().map(|e| ChartGradientStop::new(col(&e[0]), i(&e[1]) as u8)).collect();
                x.set_gradient_stops(&l)
            }
            _ => unknown("gradient", k),
        };
    }
    x
}
fn format(o: &Value) -> ChartFormat {
    let mut x = ChartFormat::new();
    for (k, v) in each(o) {
        match k {
            "line" => x.set_line(&line(v)),
            "border" => x.set_border(&line(v)),
            "noline" => x.set_no_line(),
            "noborder" => x.set_no_border(),
            "nofill" => x.set_no_fill(),
            "solid" => x.set_solid_fill(&solid(v)),
            "pattern" => x.set_pattern_fill(&pat(v)),
            "gradient" => x.set_gradient_fill(&gradient(v)),
            _ => unknown("format", k),
        };
    }
    x
}
/// A format given as one or, when it has one part, as that part.
macro_rules! fmtarg {
    ($x:expr, $m:ident, $v:expr) => {{
        let v: &Value = $v;
        if let Some(o) = v.get("line") {
            $x.$m(&mut line(o))
        } else if let Some(o) = v.get("solid") {
            $x.$m(&mut solid(o))
        } else if let Some(o) = v.get("pattern") {
            $x.$m(&mut pat(o))
        } else if let Some(o) = v.get("gradient") {
            $x.$m(&mut gradient(o))
        } else {
            $x.$m(&mut format(&v["format"]))
        }
    }};
}
fn font(o: &Value) -> ChartFont {
    let mut x = ChartFont::new();
    for (k, v) in each(o) {
        match k {
            "bold" => x.set_bold(),
            "unbold" => x.unset_bold(),
            "italic" => x.set_italic(),
            "underline" => x.set_underline(),
            "strike" => x.set_strikethrough(),
            "color" => x.set_color(col(v)),
            "name" => x.set_name(s(v)),
            "size" => x.set_size(f(v)),
            "rotation" => x.set_rotation(v.as_i64().unwrap() as i16),
            "rtl" => x.set_right_to_left(b(v)),
            "pitch" => x.set_pitch_family(i(v) as u8),
            "charset" => x.set_character_set(i(v) as u8),
            _ => unknown("font", k),
        };
    }
    x
}
fn layout(o: &Value) -> ChartLayout {
    let mut x = ChartLayout::new();
    for (k, v) in each(o) {
        x = match k {
            "offset" => x.set_offset(f(&v[0]), f(&v[1])),
            "size" => x.set_dimensions(f(&v[0]), f(&v[1])),
            _ => unknown("layout", k),
        };
    }
    x
}
fn marker(o: &Value) -> ChartMarker {
    let mut x = ChartMarker::new();
    for (k, v) in each(o) {
        match k {
            "automatic" => x.set_automatic(),
            "none" => x.set_none(),
            "type" => x.set_type(mtype(v)),
            "size" => x.set_size(i(v) as u8),
            "format" => fmtarg!(x, set_format, v),
            _ => unknown("marker", k),
        };
    }
    x
}
fn label(o: &Value) -> ChartDataLabel {
    let mut x = ChartDataLabel::new();
    for (k, v) in each(o) {
        match k {
            "value" => x.show_value(),
            "category" => x.show_category_name(),
            "series" => x.show_series_name(),
            "leader" => x.show_leader_lines(),
            "key" => x.show_legend_key(),
            "percentage" => x.show_percentage(),
            "yvalue" => x.show_y_value(),
            "xvalue" => x.show_x_value(),
            "position" => x.set_position(lpos(v)),
            "format" => fmtarg!(x, set_format, v),
            "font" => x.set_font(&font(v)),
            "numfmt" => x.set_num_format(s(v)),
            "separator" => x.set_separator(s(v).chars().next().unwrap()),
            "text" => {
                slot!(x, set_value, v);
                &mut x
            }
            "hidden" => x.set_hidden(),
            _ => unknown("label", k),
        };
    }
    x
}
fn trendline(o: &Value) -> ChartTrendline {
    let mut x = ChartTrendline::new();
    for (k, v) in each(o) {
        match k {
            "type" => x.set_type(match v[0].as_str().unwrap() {
                "None" => ChartTrendlineType::None,
                "Exponential" => ChartTrendlineType::Exponential,
                "Linear" => ChartTrendlineType::Linear,
                "Logarithmic" => ChartTrendlineType::Logarithmic,
                "Polynomial" => ChartTrendlineType::Polynomial(i(&v[1]) as u8),
                "Power" => ChartTrendlineType::Power,
                "MovingAverage" => ChartTrendlineType::MovingAverage(i(&v[1]) as u8),
                t => unknown("trendline", t),
            }),
            "format" => fmtarg!(x, set_format, v),
            "lformat" => fmtarg!(x, set_label_format, v),
            "lfont" => x.set_label_font(&font(v)),
            "name" => x.set_name(s(v)),
            "forward" => x.set_forward_period(f(v)),
            "backward" => x.set_backward_period(f(v)),
            "equation" => x.display_equation(b(v)),
            "rsquared" => x.display_r_squared(b(v)),
            "intercept" => x.set_intercept(f(v)),
            "delleg" => x.delete_from_legend(b(v)),
            _ => unknown("trendline", k),
        };
    }
    x
}
fn errbars(o: &Value) -> ChartErrorBars {
    let mut x = ChartErrorBars::new();
    for (k, v) in each(o) {
        match k {
            "type" => x.set_type(match v[0].as_str().unwrap() {
                "fixed" => ChartErrorBarsType::FixedValue(f(&v[1])),
                "percentage" => ChartErrorBarsType::Percentage(f(&v[1])),
                "stddev" => ChartErrorBarsType::StandardDeviation(f(&v[1])),
                "stderr" => ChartErrorBarsType::StandardError,
                "custom" => ChartErrorBarsType::Custom(range(&v[1]), range(&v[2])),
                t => unknown("error bars", t),
            }),
            "direction" => x.set_direction(edir(v)),
            "cap" => x.set_end_cap(b(v)),
            "format" => fmtarg!(x, set_format, v),
            _ => unknown("error bars", k),
        };
    }
    x
}
fn series(x: &mut ChartSeries, o: &Value) {
    for (k, v) in each(o) {
        match k {
            "values" => slot!(x, set_values, v),
            "categories" => slot!(x, set_categories, v),
            "name" => slot!(x, set_name, v),
            _ => {
                match k {
                    "secondary" => x.set_secondary_axis(b(v)),
                    "format" => fmtarg!(x, set_format, v),
                    "marker" => x.set_marker(&marker(v)),
                    "label" => x.set_data_label(&label(v)),
                    "labels" => {
                        let l: Vec<_> = v.as_array().unwrap().iter().map(|e| label(e).to_custom()).collect();
                        x.set_custom_data_labels(&l)
                    }
                    "points" => {
                        let l: Vec<_> = v
                            .as_array()
                            .unwrap()
                            .iter()
                            .map(|e| if e.is_null() || e.as_object().is_some_and(|m| m.is_empty()) { ChartPoint::default() } else { fmtarg!(ChartPoint::new(), set_format, e) })
                            .collect();
                        x.set_points(&l)
                    }
                    "colors" => {
                        let l: Vec<_> = v.as_array().unwrap().iter().map(col).collect();
                        x.set_point_colors(&l)
                    }
                    "trendline" => x.set_trendline(&trendline(v)),
                    "yerr" => x.set_y_error_bars(&errbars(v)),
                    "xerr" => x.set_x_error_bars(&errbars(v)),
                    "overlap" => x.set_overlap(v.as_i64().unwrap() as i8),
                    "gap" => x.set_gap(i(v) as u16),
                    "smooth" => x.set_smooth(b(v)),
                    "invert" => x.set_invert_if_negative(),
                    "invertcolor" => x.set_invert_if_negative_color(col(v)),
                    "delleg" => x.delete_from_legend(b(v)),
                    _ => unknown("series", k),
                };
            }
        }
    }
}
fn axis(x: &mut ChartAxis, o: &Value) {
    for (k, v) in each(o) {
        match k {
            "name" => slot!(x, set_name, v),
            _ => {
                match k {
                    "namefont" => x.set_name_font(&font(v)),
                    "format" => fmtarg!(x, set_format, v),
                    "font" => x.set_font(&font(v)),
                    "numfmt" => x.set_num_format(s(v)),
                    "date" => x.set_date_axis(b(v)),
                    "text" => x.set_text_axis(b(v)),
                    "automatic" => x.set_automatic_axis(b(v)),
                    "crossing" => x.set_crossing(match v[0].as_str().unwrap() {
                        "Automatic" => ChartAxisCrossing::Automatic,
                        "Min" => ChartAxisCrossing::Min,
                        "Max" => ChartAxisCrossing::Max,
                        "category" => ChartAxisCrossing::CategoryNumber(i(&v[1])),
                        _ => ChartAxisCrossing::AxisValue(f(&v[1])),
                    }),
                    "reverse" => x.set_reverse(),
                    "max" => x.set_max(f(v)),
                    "min" => x.set_min(f(v)),
                    "maxdate" => x.set_max_date(ExcelDateTime::parse_from_str(v.as_str().unwrap()).unwrap()),
                    "mindate" => x.set_min_date(ExcelDateTime::parse_from_str(v.as_str().unwrap()).unwrap()),
                    "major" => x.set_major_unit(f(v)),
                    "minor" => x.set_minor_unit(f(v)),
                    "unit" => x.set_display_unit_type(unit(v)),
                    "unitshow" => x.set_display_units_visible(b(v)),
                    "majordate" => x.set_major_unit_date_type(dunit(v)),
                    "minordate" => x.set_minor_unit_date_type(dunit(v)),
                    "align" => x.set_label_alignment(align(v)),
                    "majorgrid" => x.set_major_gridlines(b(v)),
                    "minorgrid" => x.set_minor_gridlines(b(v)),
                    "majorgridline" => x.set_major_gridlines_line(&line(v)),
                    "minorgridline" => x.set_minor_gridlines_line(&line(v)),
                    "labelpos" => x.set_label_position(alpos(v)),
                    "between" => x.set_position_between_ticks(b(v)),
                    "labelint" => x.set_label_interval(i(v) as u16),
                    "tickint" => x.set_tick_interval(i(v) as u16),
                    "majortick" => x.set_major_tick_type(tick(v)),
                    "minortick" => x.set_minor_tick_type(tick(v)),
                    "log" => x.set_log_base(i(v) as u16),
                    "hidden" => x.set_hidden(b(v)),
                    "layout" => x.set_label_layout(&layout(v)),
                    _ => unknown("axis", k),
                };
            }
        }
    }
}
fn table(o: &Value) -> ChartDataTable {
    let mut x = ChartDataTable::new();
    for (k, v) in each(o) {
        x = match k {
            "horizontal" => x.show_horizontal_borders(b(v)),
            "vertical" => x.show_vertical_borders(b(v)),
            "outline" => x.show_outline_borders(b(v)),
            "keys" => x.show_legend_keys(b(v)),
            "format" => fmtarg!(x, set_format, v),
            "font" => x.set_font(&font(v)),
            _ => unknown("table", k),
        };
    }
    x
}

pub fn chart(o: &Value) -> Chart {
    let mut c = match st(o, "ctor") {
        "fn" => match st(o, "type") {
            "Area" => Chart::new_area(),
            "Bar" => Chart::new_bar(),
            "Column" => Chart::new_column(),
            "Doughnut" => Chart::new_doughnut(),
            "Line" => Chart::new_line(),
            "Pie" => Chart::new_pie(),
            "Radar" => Chart::new_radar(),
            "Scatter" => Chart::new_scatter(),
            _ => Chart::new_stock(),
        },
        _ => Chart::new(ctype(&o["type"])),
    };
    for x in arr(o, "series") {
        if crate::ops::bo(x, "push") {
            let mut n = ChartSeries::new();
            series(&mut n, &x["set"]);
            c.push_series(&n);
        } else {
            series(c.add_series(), &x["set"]);
        }
    }
    for (k, v) in each(&o["set"]) {
        match k {
            "style" => c.set_style(i(v) as u8),
            "rotation" => c.set_rotation(i(v) as u16),
            "hole" => c.set_hole_size(i(v) as u8),
            "updown" => c.set_up_down_bars(b(v)),
            "upfmt" => fmtarg!(c, set_up_bar_format, v),
            "downfmt" => fmtarg!(c, set_down_bar_format, v),
            "highlow" => c.set_high_low_lines(b(v)),
            "highlowfmt" => fmtarg!(c, set_high_low_lines_format, v),
            "drop" => c.set_drop_lines(b(v)),
            "dropfmt" => fmtarg!(c, set_drop_lines_format, v),
            "table" => c.set_data_table(&table(v)),
            "empty" => c.show_empty_cells_as(empty(v)),
            "naempty" => c.show_na_as_empty_cell(),
            "hiddendata" => c.show_hidden_data(),
            "combine" => c.combine(&chart(v)),
            "area" => {
                fmtarg!(c.chart_area(), set_format, v);
                &mut c
            }
            "plot" => {
                fmtarg!(c.plot_area(), set_format, v);
                &mut c
            }
            "plotlayout" => {
                c.plot_area().set_layout(&layout(v));
                &mut c
            }
            _ => unknown("chart", k),
        };
    }
    for (k, v) in each(&o["title"]) {
        let t = c.title();
        match k {
            "name" => slot!(t, set_name, v),
            _ => {
                match k {
                    "hidden" => t.set_hidden(),
                    "format" => fmtarg!(t, set_format, v),
                    "font" => t.set_font(&font(v)),
                    "layout" => t.set_layout(&layout(v)),
                    "overlay" => t.set_overlay(b(v)),
                    _ => unknown("title", k),
                };
            }
        }
    }
    for (k, v) in each(&o["legend"]) {
        let t = c.legend();
        match k {
            "hidden" => t.set_hidden(),
            "position" => t.set_position(legpos(v)),
            "overlay" => t.set_overlay(b(v)),
            "layout" => t.set_layout(&layout(v)),
            "format" => fmtarg!(t, set_format, v),
            "font" => t.set_font(&font(v)),
            "delete" => t.delete_entries(&v.as_array().unwrap().iter().map(|e| i(e) as usize).collect::<Vec<_>>()),
            _ => unknown("legend", k),
        };
    }
    axis(c.x_axis(), &o["x"]);
    axis(c.y_axis(), &o["y"]);
    axis(c.x2_axis(), &o["x2"]);
    axis(c.y2_axis(), &o["y2"]);
    c
}

pub fn chart_op(ws: &mut Worksheet, op: &str, o: &Value) -> Option<R> {
    if op != "chartx" {
        return None;
    }
    let c = chart(&o["ch"]);
    let (r, k) = (un(o, "r"), us(o, "c"));
    Some(
        match st(o, "via") {
            "offset" => ws.insert_chart_with_offset(r, k, &c, 0, 0),
            _ => ws.insert_chart(r, k, &c),
        }
        .map(|_| Value::Null),
    )
}

