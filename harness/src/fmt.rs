//! Sparse format records <-> `Format`.
use rust_xlsxwriter::*;
use serde_json::Value;

pub fn color(s: &str) -> Color {
    if let Some(t) = s.strip_prefix("theme") {
        let mut it = t.split('.');
        let a: u8 = it.next().unwrap().parse().unwrap();
        let b: u8 = it.next().unwrap_or("0").parse().unwrap();
        return Color::Theme(a, b);
    }
    Color::RGB(u32::from_str_radix(s, 16).unwrap())
}

pub fn border(s: &str) -> FormatBorder {
    match s {
        "none" => FormatBorder::None,
        "thin" => FormatBorder::Thin,
        "medium" => FormatBorder::Medium,
        "dashed" => FormatBorder::Dashed,
        "dotted" => FormatBorder::Dotted,
        "thick" => FormatBorder::Thick,
        "double" => FormatBorder::Double,
        "hair" => FormatBorder::Hair,
        "mediumDashed" => FormatBorder::MediumDashed,
        "dashDot" => FormatBorder::DashDot,
        "mediumDashDot" => FormatBorder::MediumDashDot,
        "dashDotDot" => FormatBorder::DashDotDot,
        "mediumDashDotDot" => FormatBorder::MediumDashDotDot,
        "slantDashDot" => FormatBorder::SlantDashDot,
        _ => panic!("harness: border {s}"),
    }
}

pub fn pattern(s: &str) -> FormatPattern {
    match s {
        "none" => FormatPattern::None,
        "solid" => FormatPattern::Solid,
        "mediumGray" => FormatPattern::MediumGray,
        "darkGray" => FormatPattern::DarkGray,
        "lightGray" => FormatPattern::LightGray,
        "darkHorizontal" => FormatPattern::DarkHorizontal,
        "darkVertical" => FormatPattern::DarkVertical,
        "darkDown" => FormatPattern::DarkDown,
        "darkUp" => FormatPattern::DarkUp,
        "darkGrid" => FormatPattern::DarkGrid,
        "darkTrellis" => FormatPattern::DarkTrellis,
        "lightHorizontal" => FormatPattern::LightHorizontal,
        "lightVertical" => FormatPattern::LightVertical,
        "lightDown" => FormatPattern::LightDown,
        "lightUp" => FormatPattern::LightUp,
        "lightGrid" => FormatPattern::LightGrid,
        "lightTrellis" => FormatPattern::LightTrellis,
        "gray125" => FormatPattern::Gray125,
        "gray0625" => FormatPattern::Gray0625,
        _ => panic!("harness: pattern {s}"),
    }
}

pub fn align(s: &str) -> FormatAlign {
    match s {
        "general" => FormatAlign::General,
        "left" => FormatAlign::Left,
        "center" => FormatAlign::Center,
        "right" => FormatAlign::Right,
        "fill" => FormatAlign::Fill,
        "justify" => FormatAlign::Justify,
        "centerContinuous" => FormatAlign::CenterAcross,
        "distributed" => FormatAlign::Distributed,
        "top" => FormatAlign::Top,
        "bottom" => FormatAlign::Bottom,
        "vcenter" => FormatAlign::VerticalCenter,
        "vjustify" => FormatAlign::VerticalJustify,
        "vdistributed" => FormatAlign::VerticalDistributed,
        _ => panic!("harness: align {s}"),
    }
}

/// Build a `Format` from a sparse record of string properties.
pub fn format(v: &Value) -> Format {
    let mut f = Format::new();
    let Some(map) = v.as_object() else { return f };
    for (k, v) in map {
        let s = v.as_str().unwrap();
        f = match k.as_str() {
            "b" => f.set_bold(),
            "i" => f.set_italic(),
            "st" => f.set_font_strikethrough(),
            "u" => f.set_underline(match s {
                "single" => FormatUnderline::Single,
                "double" => FormatUnderline::Double,
                "singleAccounting" => FormatUnderline::SingleAccounting,
                _ => FormatUnderline::DoubleAccounting,
            }),
            "fc" => f.set_font_color(color(s)),
            "fn" => f.set_font_name(s),
            "fs" => f.set_font_size(s.parse::<f64>().unwrap()),
            "fam" => f.set_font_family(s.parse().unwrap()),
            "chs" => f.set_font_charset(s.parse().unwrap()),
            "scr" => f.set_font_script(match s {
                "superscript" => FormatScript::Superscript,
                _ => FormatScript::Subscript,
            }),
            "nf" => f.set_num_format(s),
            "nfi" => f.set_num_format_index(s.parse().unwrap()),
            "bg" => f.set_background_color(color(s)),
            "fg" => f.set_foreground_color(color(s)),
            "pat" => f.set_pattern(pattern(s)),
            "ha" => f.set_align(align(s)),
            "va" => f.set_align(align(s)),
            "wrap" => f.set_text_wrap(),
            "shr" => f.set_shrink(),
            "rot" => f.set_rotation(s.parse().unwrap()),
            "ind" => f.set_indent(s.parse().unwrap()),
            "rd" => f.set_reading_direction(s.parse().unwrap()),
            "bl" => f.set_border_left(border(s)),
            "br" => f.set_border_right(border(s)),
            "bt" => f.set_border_top(border(s)),
            "bb" => f.set_border_bottom(border(s)),
            "bd" => f.set_border_diagonal(border(s)),
            "blc" => f.set_border_left_color(color(s)),
            "brc" => f.set_border_right_color(color(s)),
            "btc" => f.set_border_top_color(color(s)),
            "bbc" => f.set_border_bottom_color(color(s)),
            "bdc" => f.set_border_diagonal_color(color(s)),
            "bdt" => f.set_border_diagonal_type(match s {
                "up" => FormatDiagonalBorder::BorderUp,
                "down" => FormatDiagonalBorder::BorderDown,
                _ => FormatDiagonalBorder::BorderUpDown,
            }),
            "lk" => f.set_unlocked(),
            "hid" => f.set_hidden(),
            "qp" => f.set_quote_prefix(),
            "cb" => f.set_checkbox(),
            "hl" => f.set_hyperlink(),
            _ => panic!("harness: format key {k}"),
        };
    }
    f
}
