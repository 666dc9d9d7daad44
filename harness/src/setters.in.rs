// generated by tools/mksetters.py
fn c_border(a: &[String]) -> Border { match (a[0].as_str(), a.len()) { ("None", _) => Border::None, ("Hidden", _) => Border::Hidden, ("Dotted", _) => Border::Dotted, ("Dashed", _) => Border::Dashed, ("Solid", _) => Border::Solid, ("Double", _) => Border::Double, ("Groove", _) => Border::Groove, ("Ridge", _) => Border::Ridge, ("Inset", _) => Border::Inset, ("Outset", _) => Border::Outset, _ => panic!("variant {:?}", a) } }
fn c_cellalignvertical(a: &[String]) -> CellAlignVertical { match (a[0].as_str(), a.len()) { ("Top", _) => CellAlignVertical::Top, ("Middle", _) => CellAlignVertical::Middle, ("Bottom", _) => CellAlignVertical::Bottom, ("Automatic", _) => CellAlignVertical::Automatic, _ => panic!("variant {:?}", a) } }
fn c_cellprotect(a: &[String]) -> CellProtect { match (a[0].as_str(), a.len()) { ("FormulaHidden", _) => CellProtect::FormulaHidden, ("HiddenAndProtected", _) => CellProtect::HiddenAndProtected, ("None", _) => CellProtect::None, ("Protected", _) => CellProtect::Protected, ("ProtectedFormulaHidden", _) => CellProtect::ProtectedFormulaHidden, _ => panic!("variant {:?}", a) } }
fn c_fontfamilygeneric(a: &[String]) -> FontFamilyGeneric { match (a[0].as_str(), a.len()) { ("Decorative", _) => FontFamilyGeneric::Decorative, ("Modern", _) => FontFamilyGeneric::Modern, ("Roman", _) => FontFamilyGeneric::Roman, ("Script", _) => FontFamilyGeneric::Script, ("Swiss", _) => FontFamilyGeneric::Swiss, ("System", _) => FontFamilyGeneric::System, _ => panic!("variant {:?}", a) } }
fn c_fontpitch(a: &[String]) -> FontPitch { match (a[0].as_str(), a.len()) { ("Variable", _) => FontPitch::Variable, ("Fixed", _) => FontPitch::Fixed, _ => panic!("variant {:?}", a) } }
fn c_fontsize(a: &[String]) -> FontSize { match (a[0].as_str(), a.len()) { ("Length", 2..) => FontSize::Length(c_length(&a[1..])), ("Percent", 2..) => FontSize::Percent(c_percent(&a[1..])), _ => panic!("variant {:?}", a) } }
fn c_fontstretch(a: &[String]) -> FontStretch { match (a[0].as_str(), a.len()) { ("Normal", _) => FontStretch::Normal, ("UltraCondensed", _) => FontStretch::UltraCondensed, ("ExtraCondensed", _) => FontStretch::ExtraCondensed, ("Condensed", _) => FontStretch::Condensed, ("SemiCondensed", _) => FontStretch::SemiCondensed, ("SemiExpanded", _) => FontStretch::SemiExpanded, ("Expanded", _) => FontStretch::Expanded, ("ExtraExpanded", _) => FontStretch::ExtraExpanded, ("UltraExpanded", _) => FontStretch::UltraExpanded, _ => panic!("variant {:?}", a) } }
fn c_fontstyle(a: &[String]) -> FontStyle { match (a[0].as_str(), a.len()) { ("Normal", _) => FontStyle::Normal, ("Italic", _) => FontStyle::Italic, ("Oblique", _) => FontStyle::Oblique, _ => panic!("variant {:?}", a) } }
fn c_fontvariant(a: &[String]) -> FontVariant { match (a[0].as_str(), a.len()) { ("Normal", _) => FontVariant::Normal, ("SmallCaps", _) => FontVariant::SmallCaps, _ => panic!("variant {:?}", a) } }
fn c_fontweight(a: &[String]) -> FontWeight { match (a[0].as_str(), a.len()) { ("Normal", _) => FontWeight::Normal, ("Bold", _) => FontWeight::Bold, ("W100", _) => FontWeight::W100, ("W200", _) => FontWeight::W200, ("W300", _) => FontWeight::W300, ("W400", _) => FontWeight::W400, ("W500", _) => FontWeight::W500, ("W600", _) => FontWeight::W600, ("W700", _) => FontWeight::W700, ("W800", _) => FontWeight::W800, ("W900", _) => FontWeight::W900, _ => panic!("variant {:?}", a) } }
fn c_formatcalendarstyle(a: &[String]) -> FormatCalendarStyle { match (a[0].as_str(), a.len()) { ("Gregorian", _) => FormatCalendarStyle::Gregorian, ("Gengou", _) => FormatCalendarStyle::Gengou, ("Roc", _) => FormatCalendarStyle::Roc, ("Hanja", _) => FormatCalendarStyle::Hanja, ("Hijri", _) => FormatCalendarStyle::Hijri, ("Jewish", _) => FormatCalendarStyle::Jewish, ("Buddhist", _) => FormatCalendarStyle::Buddhist, _ => panic!("variant {:?}", a) } }
fn c_formatnumberstyle(a: &[String]) -> FormatNumberStyle { match (a[0].as_str(), a.len()) { ("Short", _) => FormatNumberStyle::Short, ("Long", _) => FormatNumberStyle::Long, _ => panic!("variant {:?}", a) } }
fn c_formatsource(a: &[String]) -> FormatSource { match (a[0].as_str(), a.len()) { ("Fixed", _) => FormatSource::Fixed, ("Language", _) => FormatSource::Language, _ => panic!("variant {:?}", a) } }
fn c_glyphorientation(a: &[String]) -> GlyphOrientation { match (a[0].as_str(), a.len()) { ("Angle", 2..) => GlyphOrientation::Angle(c_angle(&a[1..])), ("Auto", _) => GlyphOrientation::Auto, ("Zero", _) => GlyphOrientation::Zero, _ => panic!("variant {:?}", a) } }
fn c_hyphenation(a: &[String]) -> Hyphenation { match (a[0].as_str(), a.len()) { ("Auto", _) => Hyphenation::Auto, ("Page", _) => Hyphenation::Page, _ => panic!("variant {:?}", a) } }
fn c_hyphenationladdercount(a: &[String]) -> HyphenationLadderCount { match (a[0].as_str(), a.len()) { ("Count", 2..) => HyphenationLadderCount::Count(a[1].parse().unwrap()), ("NoLimit", _) => HyphenationLadderCount::NoLimit, _ => panic!("variant {:?}", a) } }
fn c_indent(a: &[String]) -> Indent { match (a[0].as_str(), a.len()) { ("Length", 2..) => Indent::Length(c_length(&a[1..])), ("Percent", 2..) => Indent::Percent(c_percent(&a[1..])), _ => panic!("variant {:?}", a) } }
fn c_lengthpercent(a: &[String]) -> LengthPercent { match (a[0].as_str(), a.len()) { ("Length", 2..) => LengthPercent::Length(c_length(&a[1..])), ("Percent", 2..) => LengthPercent::Percent(c_percent(&a[1..])), _ => panic!("variant {:?}", a) } }
fn c_letterspacing(a: &[String]) -> LetterSpacing { match (a[0].as_str(), a.len()) { ("Length", 2..) => LetterSpacing::Length(c_length(&a[1..])), ("Normal", _) => LetterSpacing::Normal, _ => panic!("variant {:?}", a) } }
fn c_linebreak(a: &[String]) -> LineBreak { match (a[0].as_str(), a.len()) { ("Normal", _) => LineBreak::Normal, ("Strict", _) => LineBreak::Strict, _ => panic!("variant {:?}", a) } }
fn c_lineheight(a: &[String]) -> LineHeight { match (a[0].as_str(), a.len()) { ("Length", 2..) => LineHeight::Length(c_length(&a[1..])), ("Percent", 2..) => LineHeight::Percent(c_percent(&a[1..])), ("Normal", _) => LineHeight::Normal, _ => panic!("variant {:?}", a) } }
fn c_linemode(a: &[String]) -> LineMode { match (a[0].as_str(), a.len()) { ("Continuous", _) => LineMode::Continuous, ("SkipWhiteSpace", _) => LineMode::SkipWhiteSpace, _ => panic!("variant {:?}", a) } }
fn c_linestyle(a: &[String]) -> LineStyle { match (a[0].as_str(), a.len()) { ("Dash", _) => LineStyle::Dash, ("DotDash", _) => LineStyle::DotDash, ("DotDotDash", _) => LineStyle::DotDotDash, ("Dotted", _) => LineStyle::Dotted, ("LongDash", _) => LineStyle::LongDash, ("None", _) => LineStyle::None, ("Solid", _) => LineStyle::Solid, ("Wave", _) => LineStyle::Wave, _ => panic!("variant {:?}", a) } }
fn c_linetype(a: &[String]) -> LineType { match (a[0].as_str(), a.len()) { ("None", _) => LineType::None, ("Single", _) => LineType::Single, ("Double", _) => LineType::Double, _ => panic!("variant {:?}", a) } }
fn c_linewidth(a: &[String]) -> LineWidth { match (a[0].as_str(), a.len()) { ("Percent", 2..) => LineWidth::Percent(c_percent(&a[1..])), ("Int", 2..) => LineWidth::Int(a[1].parse().unwrap()), ("Length", 2..) => LineWidth::Length(c_length(&a[1..])), ("Auto", _) => LineWidth::Auto, ("Bold", _) => LineWidth::Bold, ("Normal", _) => LineWidth::Normal, ("Dash", _) => LineWidth::Dash, ("Thin", _) => LineWidth::Thin, ("Medium", _) => LineWidth::Medium, ("Thick", _) => LineWidth::Thick, _ => panic!("variant {:?}", a) } }
fn c_margin(a: &[String]) -> Margin { match (a[0].as_str(), a.len()) { ("Length", 2..) => Margin::Length(c_length(&a[1..])), ("Percent", 2..) => Margin::Percent(c_percent(&a[1..])), _ => panic!("variant {:?}", a) } }
fn c_masterpageusage(a: &[String]) -> MasterPageUsage { match (a[0].as_str(), a.len()) { ("All", _) => MasterPageUsage::All, ("Left", _) => MasterPageUsage::Left, ("Mirrored", _) => MasterPageUsage::Mirrored, ("Right", _) => MasterPageUsage::Right, _ => panic!("variant {:?}", a) } }
fn c_pagebreak(a: &[String]) -> PageBreak { match (a[0].as_str(), a.len()) { ("Auto", _) => PageBreak::Auto, ("Column", _) => PageBreak::Column, ("Page", _) => PageBreak::Page, _ => panic!("variant {:?}", a) } }
fn c_pagenumber(a: &[String]) -> PageNumber { match (a[0].as_str(), a.len()) { ("Number", 2..) => PageNumber::Number(a[1].parse().unwrap()), ("Auto", _) => PageNumber::Auto, _ => panic!("variant {:?}", a) } }
fn c_paraalignvertical(a: &[String]) -> ParaAlignVertical { match (a[0].as_str(), a.len()) { ("Top", _) => ParaAlignVertical::Top, ("Middle", _) => ParaAlignVertical::Middle, ("Bottom", _) => ParaAlignVertical::Bottom, ("Auto", _) => ParaAlignVertical::Auto, ("Baseline", _) => ParaAlignVertical::Baseline, _ => panic!("variant {:?}", a) } }
fn c_printcentering(a: &[String]) -> PrintCentering { match (a[0].as_str(), a.len()) { ("None", _) => PrintCentering::None, ("Horizontal", _) => PrintCentering::Horizontal, ("Vertical", _) => PrintCentering::Vertical, ("Both", _) => PrintCentering::Both, _ => panic!("variant {:?}", a) } }
fn c_printcontent(a: &[String]) -> PrintContent { match (a[0].as_str(), a.len()) { ("Headers", _) => PrintContent::Headers, ("Grid", _) => PrintContent::Grid, ("Annotations", _) => PrintContent::Annotations, ("Objects", _) => PrintContent::Objects, ("Charts", _) => PrintContent::Charts, ("Drawings", _) => PrintContent::Drawings, ("Formulas", _) => PrintContent::Formulas, ("ZeroValues", _) => PrintContent::ZeroValues, _ => panic!("variant {:?}", a) } }
fn c_printorder(a: &[String]) -> PrintOrder { match (a[0].as_str(), a.len()) { ("Ltr", _) => PrintOrder::Ltr, ("Ttb", _) => PrintOrder::Ttb, _ => panic!("variant {:?}", a) } }
fn c_printorientation(a: &[String]) -> PrintOrientation { match (a[0].as_str(), a.len()) { ("Landscape", _) => PrintOrientation::Landscape, ("Portrait", _) => PrintOrientation::Portrait, _ => panic!("variant {:?}", a) } }
fn c_punctuationwrap(a: &[String]) -> PunctuationWrap { match (a[0].as_str(), a.len()) { ("Hanging", _) => PunctuationWrap::Hanging, ("Simple", _) => PunctuationWrap::Simple, _ => panic!("variant {:?}", a) } }
fn c_relativescale(a: &[String]) -> RelativeScale { match (a[0].as_str(), a.len()) { ("Percent", 2..) => RelativeScale::Percent(c_percent(&a[1..])), ("Scale", _) => RelativeScale::Scale, ("ScaleMin", _) => RelativeScale::ScaleMin, _ => panic!("variant {:?}", a) } }
fn c_rotationalign(a: &[String]) -> RotationAlign { match (a[0].as_str(), a.len()) { ("None", _) => RotationAlign::None, ("Bottom", _) => RotationAlign::Bottom, ("Top", _) => RotationAlign::Top, ("Center", _) => RotationAlign::Center, _ => panic!("variant {:?}", a) } }
fn c_rotationscale(a: &[String]) -> RotationScale { match (a[0].as_str(), a.len()) { ("Fixed", _) => RotationScale::Fixed, ("LineHeight", _) => RotationScale::LineHeight, _ => panic!("variant {:?}", a) } }
fn c_stylenumformat(a: &[String]) -> StyleNumFormat { match (a[0].as_str(), a.len()) { ("Text", 2..) => StyleNumFormat::Text(a[1].clone()), ("None", _) => StyleNumFormat::None, ("Number", _) => StyleNumFormat::Number, ("LowerAlpha", _) => StyleNumFormat::LowerAlpha, ("Alpha", _) => StyleNumFormat::Alpha, ("LowerRoman", _) => StyleNumFormat::LowerRoman, ("Roman", _) => StyleNumFormat::Roman, _ => panic!("variant {:?}", a) } }
fn c_tabstoptype(a: &[String]) -> TabStopType { match (a[0].as_str(), a.len()) { ("Center", _) => TabStopType::Center, ("Left", _) => TabStopType::Left, ("Right", _) => TabStopType::Right, ("Char", _) => TabStopType::Char, _ => panic!("variant {:?}", a) } }
fn c_tablealign(a: &[String]) -> TableAlign { match (a[0].as_str(), a.len()) { ("Center", _) => TableAlign::Center, ("Left", _) => TableAlign::Left, ("Right", _) => TableAlign::Right, ("Margins", _) => TableAlign::Margins, _ => panic!("variant {:?}", a) } }
fn c_tablebordermodel(a: &[String]) -> TableBorderModel { match (a[0].as_str(), a.len()) { ("Collapsing", _) => TableBorderModel::Collapsing, ("Separating", _) => TableBorderModel::Separating, _ => panic!("variant {:?}", a) } }
fn c_textalign(a: &[String]) -> TextAlign { match (a[0].as_str(), a.len()) { ("Start", _) => TextAlign::Start, ("Center", _) => TextAlign::Center, ("End", _) => TextAlign::End, ("Justify", _) => TextAlign::Justify, ("Inside", _) => TextAlign::Inside, ("Outside", _) => TextAlign::Outside, ("Left", _) => TextAlign::Left, ("Right", _) => TextAlign::Right, _ => panic!("variant {:?}", a) } }
fn c_textalignlast(a: &[String]) -> TextAlignLast { match (a[0].as_str(), a.len()) { ("Start", _) => TextAlignLast::Start, ("Center", _) => TextAlignLast::Center, ("Justify", _) => TextAlignLast::Justify, _ => panic!("variant {:?}", a) } }
fn c_textalignsource(a: &[String]) -> TextAlignSource { match (a[0].as_str(), a.len()) { ("Fix", _) => TextAlignSource::Fix, ("ValueType", _) => TextAlignSource::ValueType, _ => panic!("variant {:?}", a) } }
fn c_textautospace(a: &[String]) -> TextAutoSpace { match (a[0].as_str(), a.len()) { ("IdeographAlpha", _) => TextAutoSpace::IdeographAlpha, ("None", _) => TextAutoSpace::None, _ => panic!("variant {:?}", a) } }
fn c_textcombine(a: &[String]) -> TextCombine { match (a[0].as_str(), a.len()) { ("None", _) => TextCombine::None, ("Letters", _) => TextCombine::Letters, ("Lines", _) => TextCombine::Lines, _ => panic!("variant {:?}", a) } }
fn c_textcondition(a: &[String]) -> TextCondition { match (a[0].as_str(), a.len()) { ("None", _) => TextCondition::None, _ => panic!("variant {:?}", a) } }
fn c_textdisplay(a: &[String]) -> TextDisplay { match (a[0].as_str(), a.len()) { ("None", _) => TextDisplay::None, ("Condition", _) => TextDisplay::Condition, ("True", _) => TextDisplay::True, _ => panic!("variant {:?}", a) } }
fn c_textemphasize(a: &[String]) -> TextEmphasize { match (a[0].as_str(), a.len()) { ("None", _) => TextEmphasize::None, ("Accent", _) => TextEmphasize::Accent, ("Circle", _) => TextEmphasize::Circle, ("Disc", _) => TextEmphasize::Disc, ("Dot", _) => TextEmphasize::Dot, _ => panic!("variant {:?}", a) } }
fn c_textemphasizeposition(a: &[String]) -> TextEmphasizePosition { match (a[0].as_str(), a.len()) { ("Above", _) => TextEmphasizePosition::Above, ("Below", _) => TextEmphasizePosition::Below, _ => panic!("variant {:?}", a) } }
fn c_textkeep(a: &[String]) -> TextKeep { match (a[0].as_str(), a.len()) { ("Auto", _) => TextKeep::Auto, ("Always", _) => TextKeep::Always, _ => panic!("variant {:?}", a) } }
fn c_textposition(a: &[String]) -> TextPosition { match (a[0].as_str(), a.len()) { ("Percent", 2..) => TextPosition::Percent(c_percent(&a[1..])), ("Sub", _) => TextPosition::Sub, ("Super", _) => TextPosition::Super, _ => panic!("variant {:?}", a) } }
fn c_textrelief(a: &[String]) -> TextRelief { match (a[0].as_str(), a.len()) { ("None", _) => TextRelief::None, ("Embossed", _) => TextRelief::Embossed, ("Engraved", _) => TextRelief::Engraved, _ => panic!("variant {:?}", a) } }
fn c_texttransform(a: &[String]) -> TextTransform { match (a[0].as_str(), a.len()) { ("None", _) => TextTransform::None, ("Lowercase", _) => TextTransform::Lowercase, ("Uppercase", _) => TextTransform::Uppercase, ("Capitalize", _) => TextTransform::Capitalize, _ => panic!("variant {:?}", a) } }
fn c_transliterationstyle(a: &[String]) -> TransliterationStyle { match (a[0].as_str(), a.len()) { ("Short", _) => TransliterationStyle::Short, ("Medium", _) => TransliterationStyle::Medium, ("Long", _) => TransliterationStyle::Long, _ => panic!("variant {:?}", a) } }
fn c_wrapoption(a: &[String]) -> WrapOption { match (a[0].as_str(), a.len()) { ("NoWrap", _) => WrapOption::NoWrap, ("Wrap", _) => WrapOption::Wrap, _ => panic!("variant {:?}", a) } }
fn c_writingdirection(a: &[String]) -> WritingDirection { match (a[0].as_str(), a.len()) { ("Ltr", _) => WritingDirection::Ltr, ("Ttb", _) => WritingDirection::Ttb, _ => panic!("variant {:?}", a) } }
fn c_writingmode(a: &[String]) -> WritingMode { match (a[0].as_str(), a.len()) { ("LrTb", _) => WritingMode::LrTb, ("RlTb", _) => WritingMode::RlTb, ("TbRl", _) => WritingMode::TbRl, ("TbLr", _) => WritingMode::TbLr, ("Lr", _) => WritingMode::Lr, ("Rl", _) => WritingMode::Rl, ("Tb", _) => WritingMode::Tb, ("Page", _) => WritingMode::Page, _ => panic!("variant {:?}", a) } }
fn c_xlinkactuate(a: &[String]) -> XLinkActuate { match (a[0].as_str(), a.len()) { ("OnLoad", _) => XLinkActuate::OnLoad, ("OnRequest", _) => XLinkActuate::OnRequest, _ => panic!("variant {:?}", a) } }
fn c_xlinkshow(a: &[String]) -> XLinkShow { match (a[0].as_str(), a.len()) { ("New", _) => XLinkShow::New, ("Replace", _) => XLinkShow::Replace, _ => panic!("variant {:?}", a) } }
fn c_xlinktype(a: &[String]) -> XLinkType { match (a[0].as_str(), a.len()) { ("Simple", _) => XLinkType::Simple, ("Extended", _) => XLinkType::Extended, ("Locator", _) => XLinkType::Locator, ("Arc", _) => XLinkType::Arc, ("Resource", _) => XLinkType::Resource, ("Title", _) => XLinkType::Title, ("None", _) => XLinkType::None, _ => panic!("variant {:?}", a) } }
fn set_cell(o: &mut CellStyle, f: &str, a: &[Vec<String>]) {
    match f {
        "set_auto_update" => o.set_auto_update(a[0][0].parse().unwrap()),
        "set_class" => o.set_class(a[0][0].as_str()),
        "set_display_name" => o.set_display_name(a[0][0].clone()),
        "set_parent_style" => o.set_parent_style(&CellStyleRef::from(a[0][0].as_str())),
        "set_background_color" => o.set_background_color(c_rgb(&a[0])),
        "set_border" => o.set_border(c_length(&a[0]), c_border(&a[1]), c_rgb(&a[2])),
        "set_border_bottom" => o.set_border_bottom(c_length(&a[0]), c_border(&a[1]), c_rgb(&a[2])),
        "set_border_left" => o.set_border_left(c_length(&a[0]), c_border(&a[1]), c_rgb(&a[2])),
        "set_border_right" => o.set_border_right(c_length(&a[0]), c_border(&a[1]), c_rgb(&a[2])),
        "set_border_top" => o.set_border_top(c_length(&a[0]), c_border(&a[1]), c_rgb(&a[2])),
        "set_padding" => o.set_padding(c_length(&a[0])),
        "set_padding_bottom" => o.set_padding_bottom(c_length(&a[0])),
        "set_padding_left" => o.set_padding_left(c_length(&a[0])),
        "set_padding_right" => o.set_padding_right(c_length(&a[0])),
        "set_padding_top" => o.set_padding_top(c_length(&a[0])),
        "set_wrap_option" => o.set_wrap_option(c_wrapoption(&a[0])),
        "set_border_line_width" => o.set_border_line_width(c_length(&a[0]), c_length(&a[1]), c_length(&a[2])),
        "set_border_line_width_bottom" => o.set_border_line_width_bottom(c_length(&a[0]), c_length(&a[1]), c_length(&a[2])),
        "set_border_line_width_left" => o.set_border_line_width_left(c_length(&a[0]), c_length(&a[1]), c_length(&a[2])),
        "set_border_line_width_right" => o.set_border_line_width_right(c_length(&a[0]), c_length(&a[1]), c_length(&a[2])),
        "set_border_line_width_top" => o.set_border_line_width_top(c_length(&a[0]), c_length(&a[1]), c_length(&a[2])),
        "set_cell_protect" => o.set_cell_protect(c_cellprotect(&a[0])),
        "set_decimal_places" => o.set_decimal_places(a[0][0].parse().unwrap()),
        "set_diagonal_bl_tr" => o.set_diagonal_bl_tr(c_length(&a[0]), c_border(&a[1]), c_rgb(&a[2])),
        "set_diagonal_bl_tr_widths" => o.set_diagonal_bl_tr_widths(c_length(&a[0]), c_length(&a[1]), c_length(&a[2])),
        "set_diagonal_tl_br" => o.set_diagonal_tl_br(c_length(&a[0]), c_border(&a[1]), c_rgb(&a[2])),
        "set_diagonal_tl_br_widths" => o.set_diagonal_tl_br_widths(c_length(&a[0]), c_length(&a[1]), c_length(&a[2])),
        "set_direction" => o.set_direction(c_writingdirection(&a[0])),
        "set_glyph_orientation_vertical" => o.set_glyph_orientation_vertical(c_glyphorientation(&a[0])),
        "set_print_content" => o.set_print_content(a[0][0].parse().unwrap()),
        "set_repeat_content" => o.set_repeat_content(a[0][0].parse().unwrap()),
        "set_rotation_align" => o.set_rotation_align(c_rotationalign(&a[0])),
        "set_rotation_angle" => o.set_rotation_angle(c_angle(&a[0])),
        "set_shadow" => o.set_shadow(c_length(&a[0]), c_length(&a[1]), if a[2].is_empty() { None } else { Some(c_length(&a[2])) }, c_rgb(&a[3])),
        "set_shrink_to_fit" => o.set_shrink_to_fit(a[0][0].parse().unwrap()),
        "set_text_align_source" => o.set_text_align_source(c_textalignsource(&a[0])),
        "set_vertical_align" => o.set_vertical_align(c_cellalignvertical(&a[0])),
        "set_writing_mode" => o.set_writing_mode(c_writingmode(&a[0])),
        "set_break_before" => o.set_break_before(c_pagebreak(&a[0])),
        "set_break_after" => o.set_break_after(c_pagebreak(&a[0])),
        "set_hyphenation_keep" => o.set_hyphenation_keep(c_hyphenation(&a[0])),
        "set_hyphenation_ladder_count" => o.set_hyphenation_ladder_count(c_hyphenationladdercount(&a[0])),
        "set_keep_together" => o.set_keep_together(c_textkeep(&a[0])),
        "set_keep_with_next" => o.set_keep_with_next(c_textkeep(&a[0])),
        "set_line_height" => o.set_line_height(c_lineheight(&a[0])),
        "set_margin" => o.set_margin(c_margin(&a[0])),
        "set_margin_bottom" => o.set_margin_bottom(c_margin(&a[0])),
        "set_margin_left" => o.set_margin_left(c_margin(&a[0])),
        "set_margin_right" => o.set_margin_right(c_margin(&a[0])),
        "set_margin_top" => o.set_margin_top(c_margin(&a[0])),
        "set_orphans" => o.set_orphans(a[0][0].parse().unwrap()),
        "set_text_align" => o.set_text_align(c_textalign(&a[0])),
        "set_text_align_last" => o.set_text_align_last(c_textalignlast(&a[0])),
        "set_text_indent" => o.set_text_indent(c_indent(&a[0])),
        "set_widows" => o.set_widows(a[0][0].parse().unwrap()),
        "set_auto_text_indent" => o.set_auto_text_indent(a[0][0].parse().unwrap()),
        "set_background_transpareny" => o.set_background_transpareny(c_percent(&a[0])),
        "set_contextual_spacing" => o.set_contextual_spacing(a[0][0].parse().unwrap()),
        "set_font_independent_line_spacing" => o.set_font_independent_line_spacing(a[0][0].parse().unwrap()),
        "set_join_border" => o.set_join_border(a[0][0].parse().unwrap()),
        "set_justify_single_word" => o.set_justify_single_word(a[0][0].parse().unwrap()),
        "set_line_break" => o.set_line_break(c_linebreak(&a[0])),
        "set_line_height_at_least" => o.set_line_height_at_least(c_length(&a[0])),
        "set_line_spacing" => o.set_line_spacing(c_length(&a[0])),
        "set_page_number" => o.set_page_number(c_pagenumber(&a[0])),
        "set_punctuation_wrap" => o.set_punctuation_wrap(c_punctuationwrap(&a[0])),
        "set_register_true" => o.set_register_true(a[0][0].parse().unwrap()),
        "set_snap_to_layout_grid" => o.set_snap_to_layout_grid(a[0][0].parse().unwrap()),
        "set_tab_stop_distance" => o.set_tab_stop_distance(c_length(&a[0])),
        "set_text_autospace" => o.set_text_autospace(c_textautospace(&a[0])),
        "set_vertical_align_para" => o.set_vertical_align_para(c_paraalignvertical(&a[0])),
        "set_writing_mode_automatic" => o.set_writing_mode_automatic(a[0][0].parse().unwrap()),
        "set_line_number" => o.set_line_number(a[0][0].parse().unwrap()),
        "set_number_lines" => o.set_number_lines(a[0][0].parse().unwrap()),
        "set_color" => o.set_color(c_rgb(&a[0])),
        "set_locale" => o.set_locale(c_locale(&a[0])),
        "set_font_name" => o.set_font_name(a[0][0].clone()),
        "set_font_size" => o.set_font_size(c_fontsize(&a[0])),
        "set_font_size_rel" => o.set_font_size_rel(c_fontsize(&a[0])),
        "set_font_style" => o.set_font_style(c_fontstyle(&a[0])),
        "set_font_italic" => o.set_font_italic(),
        "set_font_weight" => o.set_font_weight(c_fontweight(&a[0])),
        "set_font_bold" => o.set_font_bold(),
        "set_font_variant" => o.set_font_variant(c_fontvariant(&a[0])),
        "set_font_attr" => o.set_font_attr(c_fontsize(&a[0]), a[1][0].parse().unwrap(), a[2][0].parse().unwrap()),
        "set_locale_asian" => o.set_locale_asian(c_locale(&a[0])),
        "set_font_name_asian" => o.set_font_name_asian(a[0][0].clone()),
        "set_font_size_asian" => o.set_font_size_asian(c_fontsize(&a[0])),
        "set_font_size_rel_asian" => o.set_font_size_rel_asian(c_fontsize(&a[0])),
        "set_font_style_asian" => o.set_font_style_asian(c_fontstyle(&a[0])),
        "set_font_italic_asian" => o.set_font_italic_asian(),
        "set_font_weight_asian" => o.set_font_weight_asian(c_fontweight(&a[0])),
        "set_font_bold_asian" => o.set_font_bold_asian(),
        "set_font_attr_asian" => o.set_font_attr_asian(c_fontsize(&a[0]), a[1][0].parse().unwrap(), a[2][0].parse().unwrap()),
        "set_locale_complex" => o.set_locale_complex(c_locale(&a[0])),
        "set_font_name_complex" => o.set_font_name_complex(a[0][0].clone()),
        "set_font_size_complex" => o.set_font_size_complex(c_fontsize(&a[0])),
        "set_font_size_rel_complex" => o.set_font_size_rel_complex(c_fontsize(&a[0])),
        "set_font_style_complex" => o.set_font_style_complex(c_fontstyle(&a[0])),
        "set_font_italic_complex" => o.set_font_italic_complex(),
        "set_font_weight_complex" => o.set_font_weight_complex(c_fontweight(&a[0])),
        "set_font_bold_complex" => o.set_font_bold_complex(),
        "set_font_attr_complex" => o.set_font_attr_complex(c_fontsize(&a[0]), a[1][0].parse().unwrap(), a[2][0].parse().unwrap()),
        "set_hyphenate" => o.set_hyphenate(a[0][0].parse().unwrap()),
        "set_hyphenation_push_char_count" => o.set_hyphenation_push_char_count(a[0][0].parse().unwrap()),
        "set_hyphenation_remain_char_count" => o.set_hyphenation_remain_char_count(a[0][0].parse().unwrap()),
        "set_letter_spacing" => o.set_letter_spacing(c_letterspacing(&a[0])),
        "set_text_shadow" => o.set_text_shadow(c_length(&a[0]), c_length(&a[1]), if a[2].is_empty() { None } else { Some(c_length(&a[2])) }, c_rgb(&a[3])),
        "set_text_transform" => o.set_text_transform(c_texttransform(&a[0])),
        "set_font_relief" => o.set_font_relief(c_textrelief(&a[0])),
        "set_text_position" => o.set_text_position(c_textposition(&a[0]), if a[1].is_empty() { None } else { Some(c_percent(&a[1])) }),
        "set_letter_kerning" => o.set_letter_kerning(a[0][0].parse().unwrap()),
        "set_text_combine" => o.set_text_combine(c_textcombine(&a[0])),
        "set_text_combine_start_char" => o.set_text_combine_start_char(a[0][0].parse().unwrap()),
        "set_text_combine_end_char" => o.set_text_combine_end_char(a[0][0].parse().unwrap()),
        "set_text_emphasize" => o.set_text_emphasize(c_textemphasize(&a[0]), c_textemphasizeposition(&a[1])),
        "set_text_line_through_color" => o.set_text_line_through_color(c_rgb(&a[0])),
        "set_text_line_through_mode" => o.set_text_line_through_mode(c_linemode(&a[0])),
        "set_text_line_through_style" => o.set_text_line_through_style(c_linestyle(&a[0])),
        "set_text_line_through_text" => o.set_text_line_through_text(a[0][0].clone()),
        "set_text_line_through_text_style" => o.set_text_line_through_text_style(TextStyleRef::from(a[0][0].as_str())),
        "set_text_line_through_type" => o.set_text_line_through_type(c_linetype(&a[0])),
        "set_text_line_through_width" => o.set_text_line_through_width(c_linewidth(&a[0])),
        "set_font_text_outline" => o.set_font_text_outline(a[0][0].parse().unwrap()),
        "set_text_overline_color" => o.set_text_overline_color(c_rgb(&a[0])),
        "set_text_overline_mode" => o.set_text_overline_mode(c_linemode(&a[0])),
        "set_text_overline_style" => o.set_text_overline_style(c_linestyle(&a[0])),
        "set_text_overline_type" => o.set_text_overline_type(c_linetype(&a[0])),
        "set_text_overline_width" => o.set_text_overline_width(c_linewidth(&a[0])),
        "set_text_underline_color" => o.set_text_underline_color(c_rgb(&a[0])),
        "set_text_underline_mode" => o.set_text_underline_mode(c_linemode(&a[0])),
        "set_text_underline_style" => o.set_text_underline_style(c_linestyle(&a[0])),
        "set_text_underline_type" => o.set_text_underline_type(c_linetype(&a[0])),
        "set_text_underline_width" => o.set_text_underline_width(c_linewidth(&a[0])),
        "set_use_window_font_color" => o.set_use_window_font_color(a[0][0].parse().unwrap()),
        "set_text_condition" => o.set_text_condition(c_textcondition(&a[0])),
        "set_display" => o.set_display(c_textdisplay(&a[0])),
        _ => panic!("no setter {f}"),
    }
}
fn set_col(o: &mut ColStyle, f: &str, a: &[Vec<String>]) {
    match f {
        "set_auto_update" => o.set_auto_update(a[0][0].parse().unwrap()),
        "set_class" => o.set_class(a[0][0].as_str()),
        "set_display_name" => o.set_display_name(a[0][0].clone()),
        "set_parent_style" => o.set_parent_style(&ColStyleRef::from(a[0][0].as_str())),
        "set_break_before" => o.set_break_before(c_pagebreak(&a[0])),
        "set_break_after" => o.set_break_after(c_pagebreak(&a[0])),
        "set_col_width" => o.set_col_width(c_length(&a[0])),
        "set_rel_col_width" => o.set_rel_col_width(a[0][0].parse().unwrap()),
        "set_use_optimal_col_width" => o.set_use_optimal_col_width(a[0][0].parse().unwrap()),
        _ => panic!("no setter {f}"),
    }
}
fn set_row(o: &mut RowStyle, f: &str, a: &[Vec<String>]) {
    match f {
        "set_auto_update" => o.set_auto_update(a[0][0].parse().unwrap()),
        "set_class" => o.set_class(a[0][0].as_str()),
        "set_display_name" => o.set_display_name(a[0][0].clone()),
        "set_parent_style" => o.set_parent_style(&RowStyleRef::from(a[0][0].as_str())),
        "set_background_color" => o.set_background_color(c_rgb(&a[0])),
        "set_break_before" => o.set_break_before(c_pagebreak(&a[0])),
        "set_break_after" => o.set_break_after(c_pagebreak(&a[0])),
        "set_keep_together" => o.set_keep_together(c_textkeep(&a[0])),
        "set_min_row_height" => o.set_min_row_height(c_length(&a[0])),
        "set_row_height" => o.set_row_height(c_length(&a[0])),
        "set_use_optimal_row_height" => o.set_use_optimal_row_height(a[0][0].parse().unwrap()),
        _ => panic!("no setter {f}"),
    }
}
fn set_table(o: &mut TableStyle, f: &str, a: &[Vec<String>]) {
    match f {
        "set_auto_update" => o.set_auto_update(a[0][0].parse().unwrap()),
        "set_class" => o.set_class(a[0][0].as_str()),
        "set_display_name" => o.set_display_name(a[0][0].clone()),
        "set_parent_style" => o.set_parent_style(&TableStyleRef::from(a[0][0].as_str())),
        "set_master_page" => o.set_master_page(&MasterPageRef::from(a[0][0].as_str())),
        "set_background_color" => o.set_background_color(c_rgb(&a[0])),
        "set_break_before" => o.set_break_before(c_pagebreak(&a[0])),
        "set_break_after" => o.set_break_after(c_pagebreak(&a[0])),
        "set_keep_with_next" => o.set_keep_with_next(c_textkeep(&a[0])),
        "set_margin" => o.set_margin(c_margin(&a[0])),
        "set_margin_bottom" => o.set_margin_bottom(c_margin(&a[0])),
        "set_margin_left" => o.set_margin_left(c_margin(&a[0])),
        "set_margin_right" => o.set_margin_right(c_margin(&a[0])),
        "set_margin_top" => o.set_margin_top(c_margin(&a[0])),
        "set_may_break_between_rows" => o.set_may_break_between_rows(a[0][0].parse().unwrap()),
        "set_page_number" => o.set_page_number(c_pagenumber(&a[0])),
        "set_rel_width" => o.set_rel_width(c_relativescale(&a[0])),
        "set_width" => o.set_width(c_length(&a[0])),
        "set_shadow" => o.set_shadow(c_length(&a[0]), c_length(&a[1]), if a[2].is_empty() { None } else { Some(c_length(&a[2])) }, c_rgb(&a[3])),
        "set_writing_mode" => o.set_writing_mode(c_writingmode(&a[0])),
        "set_align" => o.set_align(c_tablealign(&a[0])),
        "set_border_model" => o.set_border_model(c_tablebordermodel(&a[0])),
        "set_display" => o.set_display(a[0][0].parse().unwrap()),
        "set_tab_color" => o.set_tab_color(c_rgb(&a[0])),
        _ => panic!("no setter {f}"),
    }
}
fn set_para(o: &mut ParagraphStyle, f: &str, a: &[Vec<String>]) {
    match f {
        "set_auto_update" => o.set_auto_update(a[0][0].parse().unwrap()),
        "set_class" => o.set_class(a[0][0].as_str()),
        "set_display_name" => o.set_display_name(a[0][0].clone()),
        "set_parent_style" => o.set_parent_style(&ParagraphStyleRef::from(a[0][0].as_str())),
        "set_default_outline_level" => o.set_default_outline_level(a[0][0].parse().unwrap()),
        "set_master_page" => o.set_master_page(&MasterPageRef::from(a[0][0].as_str())),
        "set_next_style" => o.set_next_style(&ParagraphStyleRef::from(a[0][0].as_str())),
        "set_background_color" => o.set_background_color(c_rgb(&a[0])),
        "set_border" => o.set_border(c_length(&a[0]), c_border(&a[1]), c_rgb(&a[2])),
        "set_border_bottom" => o.set_border_bottom(c_length(&a[0]), c_border(&a[1]), c_rgb(&a[2])),
        "set_border_left" => o.set_border_left(c_length(&a[0]), c_border(&a[1]), c_rgb(&a[2])),
        "set_border_right" => o.set_border_right(c_length(&a[0]), c_border(&a[1]), c_rgb(&a[2])),
        "set_border_top" => o.set_border_top(c_length(&a[0]), c_border(&a[1]), c_rgb(&a[2])),
        "set_break_before" => o.set_break_before(c_pagebreak(&a[0])),
        "set_break_after" => o.set_break_after(c_pagebreak(&a[0])),
        "set_hyphenation_keep" => o.set_hyphenation_keep(c_hyphenation(&a[0])),
        "set_hyphenation_ladder_count" => o.set_hyphenation_ladder_count(c_hyphenationladdercount(&a[0])),
        "set_keep_together" => o.set_keep_together(c_textkeep(&a[0])),
        "set_keep_with_next" => o.set_keep_with_next(c_textkeep(&a[0])),
        "set_line_height" => o.set_line_height(c_lineheight(&a[0])),
        "set_margin" => o.set_margin(c_margin(&a[0])),
        "set_margin_bottom" => o.set_margin_bottom(c_margin(&a[0])),
        "set_margin_left" => o.set_margin_left(c_margin(&a[0])),
        "set_margin_right" => o.set_margin_right(c_margin(&a[0])),
        "set_margin_top" => o.set_margin_top(c_margin(&a[0])),
        "set_orphans" => o.set_orphans(a[0][0].parse().unwrap()),
        "set_padding" => o.set_padding(c_length(&a[0])),
        "set_padding_bottom" => o.set_padding_bottom(c_length(&a[0])),
        "set_padding_left" => o.set_padding_left(c_length(&a[0])),
        "set_padding_right" => o.set_padding_right(c_length(&a[0])),
        "set_padding_top" => o.set_padding_top(c_length(&a[0])),
        "set_text_align" => o.set_text_align(c_textalign(&a[0])),
        "set_text_align_last" => o.set_text_align_last(c_textalignlast(&a[0])),
        "set_text_indent" => o.set_text_indent(c_indent(&a[0])),
        "set_widows" => o.set_widows(a[0][0].parse().unwrap()),
        "set_auto_text_indent" => o.set_auto_text_indent(a[0][0].parse().unwrap()),
        "set_background_transpareny" => o.set_background_transpareny(c_percent(&a[0])),
        "set_border_line_width" => o.set_border_line_width(c_length(&a[0]), c_length(&a[1]), c_length(&a[2])),
        "set_border_line_width_bottom" => o.set_border_line_width_bottom(c_length(&a[0]), c_length(&a[1]), c_length(&a[2])),
        "set_border_line_width_left" => o.set_border_line_width_left(c_length(&a[0]), c_length(&a[1]), c_length(&a[2])),
        "set_border_line_width_right" => o.set_border_line_width_right(c_length(&a[0]), c_length(&a[1]), c_length(&a[2])),
        "set_border_line_width_top" => o.set_border_line_width_top(c_length(&a[0]), c_length(&a[1]), c_length(&a[2])),
        "set_contextual_spacing" => o.set_contextual_spacing(a[0][0].parse().unwrap()),
        "set_font_independent_line_spacing" => o.set_font_independent_line_spacing(a[0][0].parse().unwrap()),
        "set_join_border" => o.set_join_border(a[0][0].parse().unwrap()),
        "set_justify_single_word" => o.set_justify_single_word(a[0][0].parse().unwrap()),
        "set_line_break" => o.set_line_break(c_linebreak(&a[0])),
        "set_line_height_at_least" => o.set_line_height_at_least(c_length(&a[0])),
        "set_line_spacing" => o.set_line_spacing(c_length(&a[0])),
        "set_page_number" => o.set_page_number(c_pagenumber(&a[0])),
        "set_punctuation_wrap" => o.set_punctuation_wrap(c_punctuationwrap(&a[0])),
        "set_register_true" => o.set_register_true(a[0][0].parse().unwrap()),
        "set_shadow" => o.set_shadow(c_length(&a[0]), c_length(&a[1]), if a[2].is_empty() { None } else { Some(c_length(&a[2])) }, c_rgb(&a[3])),
        "set_snap_to_layout_grid" => o.set_snap_to_layout_grid(a[0][0].parse().unwrap()),
        "set_tab_stop_distance" => o.set_tab_stop_distance(c_length(&a[0])),
        "set_text_autospace" => o.set_text_autospace(c_textautospace(&a[0])),
        "set_vertical_align_para" => o.set_vertical_align_para(c_paraalignvertical(&a[0])),
        "set_writing_mode" => o.set_writing_mode(c_writingmode(&a[0])),
        "set_writing_mode_automatic" => o.set_writing_mode_automatic(a[0][0].parse().unwrap()),
        "set_line_number" => o.set_line_number(a[0][0].parse().unwrap()),
        "set_number_lines" => o.set_number_lines(a[0][0].parse().unwrap()),
        "set_color" => o.set_color(c_rgb(&a[0])),
        "set_locale" => o.set_locale(c_locale(&a[0])),
        "set_font_name" => o.set_font_name(a[0][0].clone()),
        "set_font_size" => o.set_font_size(c_fontsize(&a[0])),
        "set_font_size_rel" => o.set_font_size_rel(c_fontsize(&a[0])),
        "set_font_style" => o.set_font_style(c_fontstyle(&a[0])),
        "set_font_italic" => o.set_font_italic(),
        "set_font_weight" => o.set_font_weight(c_fontweight(&a[0])),
        "set_font_bold" => o.set_font_bold(),
        "set_font_variant" => o.set_font_variant(c_fontvariant(&a[0])),
        "set_font_attr" => o.set_font_attr(c_fontsize(&a[0]), a[1][0].parse().unwrap(), a[2][0].parse().unwrap()),
        "set_locale_asian" => o.set_locale_asian(c_locale(&a[0])),
        "set_font_name_asian" => o.set_font_name_asian(a[0][0].clone()),
        "set_font_size_asian" => o.set_font_size_asian(c_fontsize(&a[0])),
        "set_font_size_rel_asian" => o.set_font_size_rel_asian(c_fontsize(&a[0])),
        "set_font_style_asian" => o.set_font_style_asian(c_fontstyle(&a[0])),
        "set_font_italic_asian" => o.set_font_italic_asian(),
        "set_font_weight_asian" => o.set_font_weight_asian(c_fontweight(&a[0])),
        "set_font_bold_asian" => o.set_font_bold_asian(),
        "set_font_attr_asian" => o.set_font_attr_asian(c_fontsize(&a[0]), a[1][0].parse().unwrap(), a[2][0].parse().unwrap()),
        "set_locale_complex" => o.set_locale_complex(c_locale(&a[0])),
        "set_font_name_complex" => o.set_font_name_complex(a[0][0].clone()),
        "set_font_size_complex" => o.set_font_size_complex(c_fontsize(&a[0])),
        "set_font_size_rel_complex" => o.set_font_size_rel_complex(c_fontsize(&a[0])),
        "set_font_style_complex" => o.set_font_style_complex(c_fontstyle(&a[0])),
        "set_font_italic_complex" => o.set_font_italic_complex(),
        "set_font_weight_complex" => o.set_font_weight_complex(c_fontweight(&a[0])),
        "set_font_bold_complex" => o.set_font_bold_complex(),
        "set_font_attr_complex" => o.set_font_attr_complex(c_fontsize(&a[0]), a[1][0].parse().unwrap(), a[2][0].parse().unwrap()),
        "set_hyphenate" => o.set_hyphenate(a[0][0].parse().unwrap()),
        "set_hyphenation_push_char_count" => o.set_hyphenation_push_char_count(a[0][0].parse().unwrap()),
        "set_hyphenation_remain_char_count" => o.set_hyphenation_remain_char_count(a[0][0].parse().unwrap()),
        "set_letter_spacing" => o.set_letter_spacing(c_letterspacing(&a[0])),
        "set_text_shadow" => o.set_text_shadow(c_length(&a[0]), c_length(&a[1]), if a[2].is_empty() { None } else { Some(c_length(&a[2])) }, c_rgb(&a[3])),
        "set_text_transform" => o.set_text_transform(c_texttransform(&a[0])),
        "set_font_relief" => o.set_font_relief(c_textrelief(&a[0])),
        "set_text_position" => o.set_text_position(c_textposition(&a[0]), if a[1].is_empty() { None } else { Some(c_percent(&a[1])) }),
        "set_rotation_scale" => o.set_rotation_scale(c_rotationscale(&a[0])),
        "set_letter_kerning" => o.set_letter_kerning(a[0][0].parse().unwrap()),
        "set_text_combine" => o.set_text_combine(c_textcombine(&a[0])),
        "set_text_combine_start_char" => o.set_text_combine_start_char(a[0][0].parse().unwrap()),
        "set_text_combine_end_char" => o.set_text_combine_end_char(a[0][0].parse().unwrap()),
        "set_text_emphasize" => o.set_text_emphasize(c_textemphasize(&a[0]), c_textemphasizeposition(&a[1])),
        "set_text_line_through_color" => o.set_text_line_through_color(c_rgb(&a[0])),
        "set_text_line_through_mode" => o.set_text_line_through_mode(c_linemode(&a[0])),
        "set_text_line_through_style" => o.set_text_line_through_style(c_linestyle(&a[0])),
        "set_text_line_through_text" => o.set_text_line_through_text(a[0][0].clone()),
        "set_text_line_through_text_style" => o.set_text_line_through_text_style(TextStyleRef::from(a[0][0].as_str())),
        "set_text_line_through_type" => o.set_text_line_through_type(c_linetype(&a[0])),
        "set_text_line_through_width" => o.set_text_line_through_width(c_linewidth(&a[0])),
        "set_font_text_outline" => o.set_font_text_outline(a[0][0].parse().unwrap()),
        "set_text_overline_color" => o.set_text_overline_color(c_rgb(&a[0])),
        "set_text_overline_mode" => o.set_text_overline_mode(c_linemode(&a[0])),
        "set_text_overline_style" => o.set_text_overline_style(c_linestyle(&a[0])),
        "set_text_overline_type" => o.set_text_overline_type(c_linetype(&a[0])),
        "set_text_overline_width" => o.set_text_overline_width(c_linewidth(&a[0])),
        "set_text_underline_color" => o.set_text_underline_color(c_rgb(&a[0])),
        "set_text_underline_mode" => o.set_text_underline_mode(c_linemode(&a[0])),
        "set_text_underline_style" => o.set_text_underline_style(c_linestyle(&a[0])),
        "set_text_underline_type" => o.set_text_underline_type(c_linetype(&a[0])),
        "set_text_underline_width" => o.set_text_underline_width(c_linewidth(&a[0])),
        "set_use_window_font_color" => o.set_use_window_font_color(a[0][0].parse().unwrap()),
        "set_text_condition" => o.set_text_condition(c_textcondition(&a[0])),
        "set_display" => o.set_display(c_textdisplay(&a[0])),
        _ => panic!("no setter {f}"),
    }
}
fn set_text(o: &mut TextStyle, f: &str, a: &[Vec<String>]) {
    match f {
        "set_auto_update" => o.set_auto_update(a[0][0].parse().unwrap()),
        "set_class" => o.set_class(a[0][0].as_str()),
        "set_display_name" => o.set_display_name(a[0][0].clone()),
        "set_parent_style" => o.set_parent_style(&TextStyleRef::from(a[0][0].as_str())),
        "set_background_color" => o.set_background_color(c_rgb(&a[0])),
        "set_color" => o.set_color(c_rgb(&a[0])),
        "set_locale" => o.set_locale(c_locale(&a[0])),
        "set_font_name" => o.set_font_name(a[0][0].clone()),
        "set_font_size" => o.set_font_size(c_fontsize(&a[0])),
        "set_font_size_rel" => o.set_font_size_rel(c_fontsize(&a[0])),
        "set_font_style" => o.set_font_style(c_fontstyle(&a[0])),
        "set_font_italic" => o.set_font_italic(),
        "set_font_weight" => o.set_font_weight(c_fontweight(&a[0])),
        "set_font_bold" => o.set_font_bold(),
        "set_font_variant" => o.set_font_variant(c_fontvariant(&a[0])),
        "set_font_attr" => o.set_font_attr(c_fontsize(&a[0]), a[1][0].parse().unwrap(), a[2][0].parse().unwrap()),
        "set_locale_asian" => o.set_locale_asian(c_locale(&a[0])),
        "set_font_name_asian" => o.set_font_name_asian(a[0][0].clone()),
        "set_font_size_asian" => o.set_font_size_asian(c_fontsize(&a[0])),
        "set_font_size_rel_asian" => o.set_font_size_rel_asian(c_fontsize(&a[0])),
        "set_font_style_asian" => o.set_font_style_asian(c_fontstyle(&a[0])),
        "set_font_italic_asian" => o.set_font_italic_asian(),
        "set_font_weight_asian" => o.set_font_weight_asian(c_fontweight(&a[0])),
        "set_font_bold_asian" => o.set_font_bold_asian(),
        "set_font_attr_asian" => o.set_font_attr_asian(c_fontsize(&a[0]), a[1][0].parse().unwrap(), a[2][0].parse().unwrap()),
        "set_locale_complex" => o.set_locale_complex(c_locale(&a[0])),
        "set_font_name_complex" => o.set_font_name_complex(a[0][0].clone()),
        "set_font_size_complex" => o.set_font_size_complex(c_fontsize(&a[0])),
        "set_font_size_rel_complex" => o.set_font_size_rel_complex(c_fontsize(&a[0])),
        "set_font_style_complex" => o.set_font_style_complex(c_fontstyle(&a[0])),
        "set_font_italic_complex" => o.set_font_italic_complex(),
        "set_font_weight_complex" => o.set_font_weight_complex(c_fontweight(&a[0])),
        "set_font_bold_complex" => o.set_font_bold_complex(),
        "set_font_attr_complex" => o.set_font_attr_complex(c_fontsize(&a[0]), a[1][0].parse().unwrap(), a[2][0].parse().unwrap()),
        "set_hyphenate" => o.set_hyphenate(a[0][0].parse().unwrap()),
        "set_hyphenation_push_char_count" => o.set_hyphenation_push_char_count(a[0][0].parse().unwrap()),
        "set_hyphenation_remain_char_count" => o.set_hyphenation_remain_char_count(a[0][0].parse().unwrap()),
        "set_letter_spacing" => o.set_letter_spacing(c_letterspacing(&a[0])),
        "set_text_shadow" => o.set_text_shadow(c_length(&a[0]), c_length(&a[1]), if a[2].is_empty() { None } else { Some(c_length(&a[2])) }, c_rgb(&a[3])),
        "set_text_transform" => o.set_text_transform(c_texttransform(&a[0])),
        "set_font_relief" => o.set_font_relief(c_textrelief(&a[0])),
        "set_text_position" => o.set_text_position(c_textposition(&a[0]), if a[1].is_empty() { None } else { Some(c_percent(&a[1])) }),
        "set_rotation_angle" => o.set_rotation_angle(c_angle(&a[0])),
        "set_rotation_scale" => o.set_rotation_scale(c_rotationscale(&a[0])),
        "set_letter_kerning" => o.set_letter_kerning(a[0][0].parse().unwrap()),
        "set_text_combine" => o.set_text_combine(c_textcombine(&a[0])),
        "set_text_combine_start_char" => o.set_text_combine_start_char(a[0][0].parse().unwrap()),
        "set_text_combine_end_char" => o.set_text_combine_end_char(a[0][0].parse().unwrap()),
        "set_text_emphasize" => o.set_text_emphasize(c_textemphasize(&a[0]), c_textemphasizeposition(&a[1])),
        "set_text_line_through_color" => o.set_text_line_through_color(c_rgb(&a[0])),
        "set_text_line_through_mode" => o.set_text_line_through_mode(c_linemode(&a[0])),
        "set_text_line_through_style" => o.set_text_line_through_style(c_linestyle(&a[0])),
        "set_text_line_through_text" => o.set_text_line_through_text(a[0][0].clone()),
        "set_text_line_through_text_style" => o.set_text_line_through_text_style(TextStyleRef::from(a[0][0].as_str())),
        "set_text_line_through_type" => o.set_text_line_through_type(c_linetype(&a[0])),
        "set_text_line_through_width" => o.set_text_line_through_width(c_linewidth(&a[0])),
        "set_font_text_outline" => o.set_font_text_outline(a[0][0].parse().unwrap()),
        "set_text_overline_color" => o.set_text_overline_color(c_rgb(&a[0])),
        "set_text_overline_mode" => o.set_text_overline_mode(c_linemode(&a[0])),
        "set_text_overline_style" => o.set_text_overline_style(c_linestyle(&a[0])),
        "set_text_overline_type" => o.set_text_overline_type(c_linetype(&a[0])),
        "set_text_overline_width" => o.set_text_overline_width(c_linewidth(&a[0])),
        "set_text_underline_color" => o.set_text_underline_color(c_rgb(&a[0])),
        "set_text_underline_mode" => o.set_text_underline_mode(c_linemode(&a[0])),
        "set_text_underline_style" => o.set_text_underline_style(c_linestyle(&a[0])),
        "set_text_underline_type" => o.set_text_underline_type(c_linetype(&a[0])),
        "set_text_underline_width" => o.set_text_underline_width(c_linewidth(&a[0])),
        "set_use_window_font_color" => o.set_use_window_font_color(a[0][0].parse().unwrap()),
        "set_text_condition" => o.set_text_condition(c_textcondition(&a[0])),
        "set_display" => o.set_display(c_textdisplay(&a[0])),
        _ => panic!("no setter {f}"),
    }
}
fn set_ruby(o: &mut RubyStyle, f: &str, a: &[Vec<String>]) {
    match f {
        "set_auto_update" => o.set_auto_update(a[0][0].parse().unwrap()),
        "set_class" => o.set_class(a[0][0].as_str()),
        "set_display_name" => o.set_display_name(a[0][0].clone()),
        "set_parent_style" => o.set_parent_style(&RubyStyleRef::from(a[0][0].as_str())),
        _ => panic!("no setter {f}"),
    }
}
fn set_graphic(o: &mut GraphicStyle, f: &str, a: &[Vec<String>]) {
    match f {
        "set_auto_update" => o.set_auto_update(a[0][0].parse().unwrap()),
        "set_class" => o.set_class(a[0][0].as_str()),
        "set_display_name" => o.set_display_name(a[0][0].clone()),
        "set_parent_style" => o.set_parent_style(&GraphicStyleRef::from(a[0][0].as_str())),
        "set_background_color" => o.set_background_color(c_rgb(&a[0])),
        "set_border" => o.set_border(c_length(&a[0]), c_border(&a[1]), c_rgb(&a[2])),
        "set_border_bottom" => o.set_border_bottom(c_length(&a[0]), c_border(&a[1]), c_rgb(&a[2])),
        "set_border_left" => o.set_border_left(c_length(&a[0]), c_border(&a[1]), c_rgb(&a[2])),
        "set_border_right" => o.set_border_right(c_length(&a[0]), c_border(&a[1]), c_rgb(&a[2])),
        "set_border_top" => o.set_border_top(c_length(&a[0]), c_border(&a[1]), c_rgb(&a[2])),
        "set_break_before" => o.set_break_before(c_pagebreak(&a[0])),
        "set_break_after" => o.set_break_after(c_pagebreak(&a[0])),
        "set_hyphenation_keep" => o.set_hyphenation_keep(c_hyphenation(&a[0])),
        "set_hyphenation_ladder_count" => o.set_hyphenation_ladder_count(c_hyphenationladdercount(&a[0])),
        "set_keep_together" => o.set_keep_together(c_textkeep(&a[0])),
        "set_keep_with_next" => o.set_keep_with_next(c_textkeep(&a[0])),
        "set_line_height" => o.set_line_height(c_lineheight(&a[0])),
        "set_margin" => o.set_margin(c_margin(&a[0])),
        "set_margin_bottom" => o.set_margin_bottom(c_margin(&a[0])),
        "set_margin_left" => o.set_margin_left(c_margin(&a[0])),
        "set_margin_right" => o.set_margin_right(c_margin(&a[0])),
        "set_margin_top" => o.set_margin_top(c_margin(&a[0])),
        "set_orphans" => o.set_orphans(a[0][0].parse().unwrap()),
        "set_padding" => o.set_padding(c_length(&a[0])),
        "set_padding_bottom" => o.set_padding_bottom(c_length(&a[0])),
        "set_padding_left" => o.set_padding_left(c_length(&a[0])),
        "set_padding_right" => o.set_padding_right(c_length(&a[0])),
        "set_padding_top" => o.set_padding_top(c_length(&a[0])),
        "set_text_align" => o.set_text_align(c_textalign(&a[0])),
        "set_text_align_last" => o.set_text_align_last(c_textalignlast(&a[0])),
        "set_text_indent" => o.set_text_indent(c_indent(&a[0])),
        "set_widows" => o.set_widows(a[0][0].parse().unwrap()),
        "set_auto_text_indent" => o.set_auto_text_indent(a[0][0].parse().unwrap()),
        "set_background_transpareny" => o.set_background_transpareny(c_percent(&a[0])),
        "set_border_line_width" => o.set_border_line_width(c_length(&a[0]), c_length(&a[1]), c_length(&a[2])),
        "set_border_line_width_bottom" => o.set_border_line_width_bottom(c_length(&a[0]), c_length(&a[1]), c_length(&a[2])),
        "set_border_line_width_left" => o.set_border_line_width_left(c_length(&a[0]), c_length(&a[1]), c_length(&a[2])),
        "set_border_line_width_right" => o.set_border_line_width_right(c_length(&a[0]), c_length(&a[1]), c_length(&a[2])),
        "set_border_line_width_top" => o.set_border_line_width_top(c_length(&a[0]), c_length(&a[1]), c_length(&a[2])),
        "set_contextual_spacing" => o.set_contextual_spacing(a[0][0].parse().unwrap()),
        "set_font_independent_line_spacing" => o.set_font_independent_line_spacing(a[0][0].parse().unwrap()),
        "set_join_border" => o.set_join_border(a[0][0].parse().unwrap()),
        "set_justify_single_word" => o.set_justify_single_word(a[0][0].parse().unwrap()),
        "set_line_break" => o.set_line_break(c_linebreak(&a[0])),
        "set_line_height_at_least" => o.set_line_height_at_least(c_length(&a[0])),
        "set_line_spacing" => o.set_line_spacing(c_length(&a[0])),
        "set_page_number" => o.set_page_number(c_pagenumber(&a[0])),
        "set_punctuation_wrap" => o.set_punctuation_wrap(c_punctuationwrap(&a[0])),
        "set_register_true" => o.set_register_true(a[0][0].parse().unwrap()),
        "set_shadow" => o.set_shadow(c_length(&a[0]), c_length(&a[1]), if a[2].is_empty() { None } else { Some(c_length(&a[2])) }, c_rgb(&a[3])),
        "set_snap_to_layout_grid" => o.set_snap_to_layout_grid(a[0][0].parse().unwrap()),
        "set_tab_stop_distance" => o.set_tab_stop_distance(c_length(&a[0])),
        "set_text_autospace" => o.set_text_autospace(c_textautospace(&a[0])),
        "set_vertical_align_para" => o.set_vertical_align_para(c_paraalignvertical(&a[0])),
        "set_writing_mode" => o.set_writing_mode(c_writingmode(&a[0])),
        "set_writing_mode_automatic" => o.set_writing_mode_automatic(a[0][0].parse().unwrap()),
        "set_line_number" => o.set_line_number(a[0][0].parse().unwrap()),
        "set_number_lines" => o.set_number_lines(a[0][0].parse().unwrap()),
        "set_color" => o.set_color(c_rgb(&a[0])),
        "set_locale" => o.set_locale(c_locale(&a[0])),
        "set_font_name" => o.set_font_name(a[0][0].clone()),
        "set_font_size" => o.set_font_size(c_fontsize(&a[0])),
        "set_font_size_rel" => o.set_font_size_rel(c_fontsize(&a[0])),
        "set_font_style" => o.set_font_style(c_fontstyle(&a[0])),
        "set_font_italic" => o.set_font_italic(),
        "set_font_weight" => o.set_font_weight(c_fontweight(&a[0])),
        "set_font_bold" => o.set_font_bold(),
        "set_font_variant" => o.set_font_variant(c_fontvariant(&a[0])),
        "set_font_attr" => o.set_font_attr(c_fontsize(&a[0]), a[1][0].parse().unwrap(), a[2][0].parse().unwrap()),
        "set_locale_asian" => o.set_locale_asian(c_locale(&a[0])),
        "set_font_name_asian" => o.set_font_name_asian(a[0][0].clone()),
        "set_font_size_asian" => o.set_font_size_asian(c_fontsize(&a[0])),
        "set_font_size_rel_asian" => o.set_font_size_rel_asian(c_fontsize(&a[0])),
        "set_font_style_asian" => o.set_font_style_asian(c_fontstyle(&a[0])),
        "set_font_italic_asian" => o.set_font_italic_asian(),
        "set_font_weight_asian" => o.set_font_weight_asian(c_fontweight(&a[0])),
        "set_font_bold_asian" => o.set_font_bold_asian(),
        "set_font_attr_asian" => o.set_font_attr_asian(c_fontsize(&a[0]), a[1][0].parse().unwrap(), a[2][0].parse().unwrap()),
        "set_locale_complex" => o.set_locale_complex(c_locale(&a[0])),
        "set_font_name_complex" => o.set_font_name_complex(a[0][0].clone()),
        "set_font_size_complex" => o.set_font_size_complex(c_fontsize(&a[0])),
        "set_font_size_rel_complex" => o.set_font_size_rel_complex(c_fontsize(&a[0])),
        "set_font_style_complex" => o.set_font_style_complex(c_fontstyle(&a[0])),
        "set_font_italic_complex" => o.set_font_italic_complex(),
        "set_font_weight_complex" => o.set_font_weight_complex(c_fontweight(&a[0])),
        "set_font_bold_complex" => o.set_font_bold_complex(),
        "set_font_attr_complex" => o.set_font_attr_complex(c_fontsize(&a[0]), a[1][0].parse().unwrap(), a[2][0].parse().unwrap()),
        "set_hyphenate" => o.set_hyphenate(a[0][0].parse().unwrap()),
        "set_hyphenation_push_char_count" => o.set_hyphenation_push_char_count(a[0][0].parse().unwrap()),
        "set_hyphenation_remain_char_count" => o.set_hyphenation_remain_char_count(a[0][0].parse().unwrap()),
        "set_letter_spacing" => o.set_letter_spacing(c_letterspacing(&a[0])),
        "set_text_shadow" => o.set_text_shadow(c_length(&a[0]), c_length(&a[1]), if a[2].is_empty() { None } else { Some(c_length(&a[2])) }, c_rgb(&a[3])),
        "set_text_transform" => o.set_text_transform(c_texttransform(&a[0])),
        "set_font_relief" => o.set_font_relief(c_textrelief(&a[0])),
        "set_text_position" => o.set_text_position(c_textposition(&a[0]), if a[1].is_empty() { None } else { Some(c_percent(&a[1])) }),
        "set_rotation_scale" => o.set_rotation_scale(c_rotationscale(&a[0])),
        "set_letter_kerning" => o.set_letter_kerning(a[0][0].parse().unwrap()),
        "set_text_combine" => o.set_text_combine(c_textcombine(&a[0])),
        "set_text_combine_start_char" => o.set_text_combine_start_char(a[0][0].parse().unwrap()),
        "set_text_combine_end_char" => o.set_text_combine_end_char(a[0][0].parse().unwrap()),
        "set_text_emphasize" => o.set_text_emphasize(c_textemphasize(&a[0]), c_textemphasizeposition(&a[1])),
        "set_text_line_through_color" => o.set_text_line_through_color(c_rgb(&a[0])),
        "set_text_line_through_mode" => o.set_text_line_through_mode(c_linemode(&a[0])),
        "set_text_line_through_style" => o.set_text_line_through_style(c_linestyle(&a[0])),
        "set_text_line_through_text" => o.set_text_line_through_text(a[0][0].clone()),
        "set_text_line_through_text_style" => o.set_text_line_through_text_style(TextStyleRef::from(a[0][0].as_str())),
        "set_text_line_through_type" => o.set_text_line_through_type(c_linetype(&a[0])),
        "set_text_line_through_width" => o.set_text_line_through_width(c_linewidth(&a[0])),
        "set_font_text_outline" => o.set_font_text_outline(a[0][0].parse().unwrap()),
        "set_text_overline_color" => o.set_text_overline_color(c_rgb(&a[0])),
        "set_text_overline_mode" => o.set_text_overline_mode(c_linemode(&a[0])),
        "set_text_overline_style" => o.set_text_overline_style(c_linestyle(&a[0])),
        "set_text_overline_type" => o.set_text_overline_type(c_linetype(&a[0])),
        "set_text_overline_width" => o.set_text_overline_width(c_linewidth(&a[0])),
        "set_text_underline_color" => o.set_text_underline_color(c_rgb(&a[0])),
        "set_text_underline_mode" => o.set_text_underline_mode(c_linemode(&a[0])),
        "set_text_underline_style" => o.set_text_underline_style(c_linestyle(&a[0])),
        "set_text_underline_type" => o.set_text_underline_type(c_linetype(&a[0])),
        "set_text_underline_width" => o.set_text_underline_width(c_linewidth(&a[0])),
        "set_use_window_font_color" => o.set_use_window_font_color(a[0][0].parse().unwrap()),
        "set_text_condition" => o.set_text_condition(c_textcondition(&a[0])),
        "set_display" => o.set_display(c_textdisplay(&a[0])),
        _ => panic!("no setter {f}"),
    }
}
fn set_font(o: &mut FontFaceDecl, f: &str, a: &[Vec<String>]) {
    match f {
        "set_font_family_generic" => o.set_font_family_generic(c_fontfamilygeneric(&a[0])),
        "set_font_pitch" => o.set_font_pitch(c_fontpitch(&a[0])),
        "set_font_family" => o.set_font_family(a[0][0].clone()),
        "set_font_stretch" => o.set_font_stretch(c_fontstretch(&a[0])),
        "set_font_style" => o.set_font_style(c_fontstyle(&a[0])),
        "set_font_variant" => o.set_font_variant(c_fontvariant(&a[0])),
        "set_font_weight" => o.set_font_weight(c_fontweight(&a[0])),
        _ => panic!("no setter {f}"),
    }
}
fn set_page(o: &mut PageStyle, f: &str, a: &[Vec<String>]) {
    match f {
        "set_page_height" => o.set_page_height(c_length(&a[0])),
        "set_page_width" => o.set_page_width(c_length(&a[0])),
        "set_first_page_number" => o.set_first_page_number(a[0][0].parse().unwrap()),
        "set_footnote_max_height" => o.set_footnote_max_height(c_length(&a[0])),
        "set_num_format" => o.set_num_format(c_stylenumformat(&a[0])),
        "set_num_letter_sync" => o.set_num_letter_sync(a[0][0].parse().unwrap()),
        "set_num_prefix" => o.set_num_prefix(a[0][0].clone()),
        "set_num_suffix" => o.set_num_suffix(a[0][0].clone()),
        "set_paper_tray_name" => o.set_paper_tray_name(a[0][0].clone()),
        "set_print" => o.set_print(&a[0].iter().map(|x| c_printcontent(&[x.clone()])).collect::<Vec<_>>()),
        "set_print_orientation" => o.set_print_orientation(c_printorientation(&a[0])),
        "set_print_page_order" => o.set_print_page_order(c_printorder(&a[0])),
        "set_scale_to" => o.set_scale_to(c_percent(&a[0])),
        "set_scale_to_pages" => o.set_scale_to_pages(a[0][0].parse().unwrap()),
        "set_table_centering" => o.set_table_centering(c_printcentering(&a[0])),
        "set_writing_mode" => o.set_writing_mode(c_writingmode(&a[0])),
        "set_background_color" => o.set_background_color(c_rgb(&a[0])),
        "set_border" => o.set_border(c_length(&a[0]), c_border(&a[1]), c_rgb(&a[2])),
        "set_border_bottom" => o.set_border_bottom(c_length(&a[0]), c_border(&a[1]), c_rgb(&a[2])),
        "set_border_left" => o.set_border_left(c_length(&a[0]), c_border(&a[1]), c_rgb(&a[2])),
        "set_border_right" => o.set_border_right(c_length(&a[0]), c_border(&a[1]), c_rgb(&a[2])),
        "set_border_top" => o.set_border_top(c_length(&a[0]), c_border(&a[1]), c_rgb(&a[2])),
        "set_border_line_width" => o.set_border_line_width(c_length(&a[0]), c_length(&a[1]), c_length(&a[2])),
        "set_border_line_width_bottom" => o.set_border_line_width_bottom(c_length(&a[0]), c_length(&a[1]), c_length(&a[2])),
        "set_border_line_width_left" => o.set_border_line_width_left(c_length(&a[0]), c_length(&a[1]), c_length(&a[2])),
        "set_border_line_width_right" => o.set_border_line_width_right(c_length(&a[0]), c_length(&a[1]), c_length(&a[2])),
        "set_border_line_width_top" => o.set_border_line_width_top(c_length(&a[0]), c_length(&a[1]), c_length(&a[2])),
        "set_margin" => o.set_margin(c_margin(&a[0])),
        "set_margin_bottom" => o.set_margin_bottom(c_margin(&a[0])),
        "set_margin_left" => o.set_margin_left(c_margin(&a[0])),
        "set_margin_right" => o.set_margin_right(c_margin(&a[0])),
        "set_margin_top" => o.set_margin_top(c_margin(&a[0])),
        "set_padding" => o.set_padding(c_length(&a[0])),
        "set_padding_bottom" => o.set_padding_bottom(c_length(&a[0])),
        "set_padding_left" => o.set_padding_left(c_length(&a[0])),
        "set_padding_right" => o.set_padding_right(c_length(&a[0])),
        "set_padding_top" => o.set_padding_top(c_length(&a[0])),
        "set_dynamic_spacing" => o.set_dynamic_spacing(a[0][0].parse().unwrap()),
        "set_shadow" => o.set_shadow(c_length(&a[0]), c_length(&a[1]), if a[2].is_empty() { None } else { Some(c_length(&a[2])) }, c_rgb(&a[3])),
        "h_set_background_color" => o.headerstyle_mut().set_background_color(c_rgb(&a[0])),
        "f_set_background_color" => o.footerstyle_mut().set_background_color(c_rgb(&a[0])),
        "h_set_border" => o.headerstyle_mut().set_border(c_length(&a[0]), c_border(&a[1]), c_rgb(&a[2])),
        "f_set_border" => o.footerstyle_mut().set_border(c_length(&a[0]), c_border(&a[1]), c_rgb(&a[2])),
        "h_set_border_bottom" => o.headerstyle_mut().set_border_bottom(c_length(&a[0]), c_border(&a[1]), c_rgb(&a[2])),
        "f_set_border_bottom" => o.footerstyle_mut().set_border_bottom(c_length(&a[0]), c_border(&a[1]), c_rgb(&a[2])),
        "h_set_border_left" => o.headerstyle_mut().set_border_left(c_length(&a[0]), c_border(&a[1]), c_rgb(&a[2])),
        "f_set_border_left" => o.footerstyle_mut().set_border_left(c_length(&a[0]), c_border(&a[1]), c_rgb(&a[2])),
        "h_set_border_right" => o.headerstyle_mut().set_border_right(c_length(&a[0]), c_border(&a[1]), c_rgb(&a[2])),
        "f_set_border_right" => o.footerstyle_mut().set_border_right(c_length(&a[0]), c_border(&a[1]), c_rgb(&a[2])),
        "h_set_border_top" => o.headerstyle_mut().set_border_top(c_length(&a[0]), c_border(&a[1]), c_rgb(&a[2])),
        "f_set_border_top" => o.footerstyle_mut().set_border_top(c_length(&a[0]), c_border(&a[1]), c_rgb(&a[2])),
        "h_set_margin" => o.headerstyle_mut().set_margin(c_margin(&a[0])),
        "f_set_margin" => o.footerstyle_mut().set_margin(c_margin(&a[0])),
        "h_set_margin_bottom" => o.headerstyle_mut().set_margin_bottom(c_margin(&a[0])),
        "f_set_margin_bottom" => o.footerstyle_mut().set_margin_bottom(c_margin(&a[0])),
        "h_set_margin_left" => o.headerstyle_mut().set_margin_left(c_margin(&a[0])),
        "f_set_margin_left" => o.footerstyle_mut().set_margin_left(c_margin(&a[0])),
        "h_set_margin_right" => o.headerstyle_mut().set_margin_right(c_margin(&a[0])),
        "f_set_margin_right" => o.footerstyle_mut().set_margin_right(c_margin(&a[0])),
        "h_set_margin_top" => o.headerstyle_mut().set_margin_top(c_margin(&a[0])),
        "f_set_margin_top" => o.footerstyle_mut().set_margin_top(c_margin(&a[0])),
        "h_set_min_height" => o.headerstyle_mut().set_min_height(c_lengthpercent(&a[0])),
        "f_set_min_height" => o.footerstyle_mut().set_min_height(c_lengthpercent(&a[0])),
        "h_set_padding" => o.headerstyle_mut().set_padding(c_length(&a[0])),
        "f_set_padding" => o.footerstyle_mut().set_padding(c_length(&a[0])),
        "h_set_padding_bottom" => o.headerstyle_mut().set_padding_bottom(c_length(&a[0])),
        "f_set_padding_bottom" => o.footerstyle_mut().set_padding_bottom(c_length(&a[0])),
        "h_set_padding_left" => o.headerstyle_mut().set_padding_left(c_length(&a[0])),
        "f_set_padding_left" => o.footerstyle_mut().set_padding_left(c_length(&a[0])),
        "h_set_padding_right" => o.headerstyle_mut().set_padding_right(c_length(&a[0])),
        "f_set_padding_right" => o.footerstyle_mut().set_padding_right(c_length(&a[0])),
        "h_set_padding_top" => o.headerstyle_mut().set_padding_top(c_length(&a[0])),
        "f_set_padding_top" => o.footerstyle_mut().set_padding_top(c_length(&a[0])),
        "h_set_border_line_width" => o.headerstyle_mut().set_border_line_width(c_length(&a[0]), c_length(&a[1]), c_length(&a[2])),
        "f_set_border_line_width" => o.footerstyle_mut().set_border_line_width(c_length(&a[0]), c_length(&a[1]), c_length(&a[2])),
        "h_set_border_line_width_bottom" => o.headerstyle_mut().set_border_line_width_bottom(c_length(&a[0]), c_length(&a[1]), c_length(&a[2])),
        "f_set_border_line_width_bottom" => o.footerstyle_mut().set_border_line_width_bottom(c_length(&a[0]), c_length(&a[1]), c_length(&a[2])),
        "h_set_border_line_width_left" => o.headerstyle_mut().set_border_line_width_left(c_length(&a[0]), c_length(&a[1]), c_length(&a[2])),
        "f_set_border_line_width_left" => o.footerstyle_mut().set_border_line_width_left(c_length(&a[0]), c_length(&a[1]), c_length(&a[2])),
        "h_set_border_line_width_right" => o.headerstyle_mut().set_border_line_width_right(c_length(&a[0]), c_length(&a[1]), c_length(&a[2])),
        "f_set_border_line_width_right" => o.footerstyle_mut().set_border_line_width_right(c_length(&a[0]), c_length(&a[1]), c_length(&a[2])),
        "h_set_border_line_width_top" => o.headerstyle_mut().set_border_line_width_top(c_length(&a[0]), c_length(&a[1]), c_length(&a[2])),
        "f_set_border_line_width_top" => o.footerstyle_mut().set_border_line_width_top(c_length(&a[0]), c_length(&a[1]), c_length(&a[2])),
        "h_set_dynamic_spacing" => o.headerstyle_mut().set_dynamic_spacing(a[0][0].parse().unwrap()),
        "f_set_dynamic_spacing" => o.footerstyle_mut().set_dynamic_spacing(a[0][0].parse().unwrap()),
        "h_set_shadow" => o.headerstyle_mut().set_shadow(c_length(&a[0]), c_length(&a[1]), if a[2].is_empty() { None } else { Some(c_length(&a[2])) }, c_rgb(&a[3])),
        "f_set_shadow" => o.footerstyle_mut().set_shadow(c_length(&a[0]), c_length(&a[1]), if a[2].is_empty() { None } else { Some(c_length(&a[2])) }, c_rgb(&a[3])),
        "h_set_height" => o.headerstyle_mut().set_height(c_length(&a[0])),
        "f_set_height" => o.footerstyle_mut().set_height(c_length(&a[0])),
        "set_page_usage" => o.set_page_usage(c_masterpageusage(&a[0])),
        "clear_page_usage" => o.clear_page_usage(),
        _ => panic!("no setter {f}"),
    }
}
fn set_tab(o: &mut TabStop, f: &str, a: &[Vec<String>]) {
    match f {
        "set_char" => o.set_char(a[0][0].parse().unwrap()),
        "set_leader_color" => o.set_leader_color(c_rgb(&a[0])),
        "set_leader_style" => o.set_leader_style(c_linestyle(&a[0])),
        "set_leader_text" => o.set_leader_text(a[0][0].parse().unwrap()),
        "set_leader_text_style" => o.set_leader_text_style(&TextStyleRef::from(a[0][0].as_str())),
        "set_leader_type" => o.set_leader_type(c_linetype(&a[0])),
        "set_leader_width" => o.set_leader_width(c_linewidth(&a[0])),
        "set_position" => o.set_position(c_length(&a[0])),
        "set_type" => o.set_type(c_tabstoptype(&a[0])),
        _ => panic!("no setter {f}"),
    }
}
fn set_annot(o: &mut Annotation, f: &str, a: &[Vec<String>]) {
    match f {
        "set_draw_caption_point_x" => o.set_draw_caption_point_x(c_length(&a[0])),
        "set_draw_caption_point_y" => o.set_draw_caption_point_y(c_length(&a[0])),
        "set_draw_class_names" => o.set_draw_class_names(&a[0].iter().map(|x| GraphicStyleRef::from(x.as_str())).collect::<Vec<_>>()),
        "set_draw_corner_radius" => o.set_draw_corner_radius(a[0][0].parse().unwrap()),
        "set_draw_id" => o.set_draw_id(a[0][0].clone()),
        "set_draw_layer" => o.set_draw_layer(a[0][0].clone()),
        "set_draw_style_name" => o.set_draw_style_name(GraphicStyleRef::from(a[0][0].as_str())),
        "set_draw_text_style_name" => o.set_draw_text_style_name(ParagraphStyleRef::from(a[0][0].as_str())),
        "set_draw_transform" => o.set_draw_transform(&a[0]),
        "set_draw_z_index" => o.set_draw_z_index(a[0][0].parse().unwrap()),
        "set_height" => o.set_height(c_length(&a[0])),
        "set_width" => o.set_width(c_length(&a[0])),
        "svg_x" => o.svg_x(c_length(&a[0])),
        "svg_y" => o.svg_y(c_length(&a[0])),
        "set_table_end_cell_address" => o.set_table_end_cell_address(spreadsheet_ods::CellRef::try_from(a[0][0].as_str()).unwrap()),
        "set_table_end_x" => o.set_table_end_x(c_length(&a[0])),
        "set_table_end_y" => o.set_table_end_y(c_length(&a[0])),
        "set_table_table_background" => o.set_table_table_background(a[0][0].parse().unwrap()),
        "set_xml_id" => o.set_xml_id(a[0][0].clone()),
        _ => panic!("no setter {f}"),
    }
}
fn set_frame(o: &mut DrawFrame, f: &str, a: &[Vec<String>]) {
    match f {
        "set_draw_name" => o.set_draw_name(a[0][0].clone()),
        "set_draw_caption_id" => o.set_draw_caption_id(a[0][0].clone()),
        "set_draw_class_names" => o.set_draw_class_names(&a[0].iter().map(|x| GraphicStyleRef::from(x.as_str())).collect::<Vec<_>>()),
        "set_draw_corner_radius" => o.set_draw_corner_radius(a[0][0].parse().unwrap()),
        "set_draw_copy_of" => o.set_draw_copy_of(a[0][0].clone()),
        "set_draw_id" => o.set_draw_id(a[0][0].clone()),
        "set_draw_layer" => o.set_draw_layer(a[0][0].clone()),
        "set_draw_style_name" => o.set_draw_style_name(GraphicStyleRef::from(a[0][0].as_str())),
        "set_draw_text_style_name" => o.set_draw_text_style_name(ParagraphStyleRef::from(a[0][0].as_str())),
        "set_draw_transform" => o.set_draw_transform(&a[0]),
        "set_draw_z_index" => o.set_draw_z_index(a[0][0].parse().unwrap()),
        "set_rel_height" => o.set_rel_height(c_relativescale(&a[0])),
        "set_rel_width" => o.set_rel_width(c_relativescale(&a[0])),
        "set_height" => o.set_height(c_length(&a[0])),
        "set_width" => o.set_width(c_length(&a[0])),
        "svg_x" => o.svg_x(c_length(&a[0])),
        "svg_y" => o.svg_y(c_length(&a[0])),
        "set_table_end_cell_address" => o.set_table_end_cell_address(spreadsheet_ods::CellRef::try_from(a[0][0].as_str()).unwrap()),
        "set_table_end_x" => o.set_table_end_x(c_length(&a[0])),
        "set_table_end_y" => o.set_table_end_y(c_length(&a[0])),
        "set_table_table_background" => o.set_table_table_background(a[0][0].parse().unwrap()),
        "set_xml_id" => o.set_xml_id(a[0][0].clone()),
        _ => panic!("no setter {f}"),
    }
}
fn set_image(o: &mut DrawImage, f: &str, a: &[Vec<String>]) {
    match f {
        "set_draw_filter_name" => o.set_draw_filter_name(a[0][0].clone()),
        "set_draw_mime_type" => o.set_draw_mime_type(a[0][0].clone()),
        "set_xlink_actuate" => o.set_xlink_actuate(c_xlinkactuate(&a[0])),
        "set_xlink_href" => o.set_xlink_href(a[0][0].clone()),
        "set_xlink_show" => o.set_xlink_show(c_xlinkshow(&a[0])),
        "set_xlink_type" => o.set_xlink_type(c_xlinktype(&a[0])),
        "set_xml_id" => o.set_xml_id(a[0][0].clone()),
        _ => panic!("no setter {f}"),
    }
}
fn set_fbool(o: &mut ValueFormatBoolean, f: &str, a: &[Vec<String>]) {
    match f {
        "set_locale" => o.set_locale(c_locale(&a[0])),
        "set_title" => o.set_title(a[0][0].clone()),
        "set_transliteration_locale" => o.set_transliteration_locale(c_locale(&a[0])),
        "set_transliteration_format" => o.set_transliteration_format(a[0][0].parse().unwrap()),
        "set_transliteration_style" => o.set_transliteration_style(c_transliterationstyle(&a[0])),
        "set_display_name" => o.set_display_name(a[0][0].clone()),
        "set_volatile" => o.set_volatile(a[0][0].parse().unwrap()),
        "set_background_color" => o.set_background_color(c_rgb(&a[0])),
        "set_color" => o.set_color(c_rgb(&a[0])),
        "set_font_name" => o.set_font_name(a[0][0].clone()),
        "set_font_size" => o.set_font_size(c_fontsize(&a[0])),
        "set_font_size_rel" => o.set_font_size_rel(c_fontsize(&a[0])),
        "set_font_style" => o.set_font_style(c_fontstyle(&a[0])),
        "set_font_italic" => o.set_font_italic(),
        "set_font_weight" => o.set_font_weight(c_fontweight(&a[0])),
        "set_font_bold" => o.set_font_bold(),
        "set_font_variant" => o.set_font_variant(c_fontvariant(&a[0])),
        "set_font_attr" => o.set_font_attr(c_fontsize(&a[0]), a[1][0].parse().unwrap(), a[2][0].parse().unwrap()),
        "set_locale_asian" => o.set_locale_asian(c_locale(&a[0])),
        "set_font_name_asian" => o.set_font_name_asian(a[0][0].clone()),
        "set_font_size_asian" => o.set_font_size_asian(c_fontsize(&a[0])),
        "set_font_size_rel_asian" => o.set_font_size_rel_asian(c_fontsize(&a[0])),
        "set_font_style_asian" => o.set_font_style_asian(c_fontstyle(&a[0])),
        "set_font_italic_asian" => o.set_font_italic_asian(),
        "set_font_weight_asian" => o.set_font_weight_asian(c_fontweight(&a[0])),
        "set_font_bold_asian" => o.set_font_bold_asian(),
        "set_font_attr_asian" => o.set_font_attr_asian(c_fontsize(&a[0]), a[1][0].parse().unwrap(), a[2][0].parse().unwrap()),
        "set_locale_complex" => o.set_locale_complex(c_locale(&a[0])),
        "set_font_name_complex" => o.set_font_name_complex(a[0][0].clone()),
        "set_font_size_complex" => o.set_font_size_complex(c_fontsize(&a[0])),
        "set_font_size_rel_complex" => o.set_font_size_rel_complex(c_fontsize(&a[0])),
        "set_font_style_complex" => o.set_font_style_complex(c_fontstyle(&a[0])),
        "set_font_italic_complex" => o.set_font_italic_complex(),
        "set_font_weight_complex" => o.set_font_weight_complex(c_fontweight(&a[0])),
        "set_font_bold_complex" => o.set_font_bold_complex(),
        "set_font_attr_complex" => o.set_font_attr_complex(c_fontsize(&a[0]), a[1][0].parse().unwrap(), a[2][0].parse().unwrap()),
        "set_hyphenate" => o.set_hyphenate(a[0][0].parse().unwrap()),
        "set_hyphenation_push_char_count" => o.set_hyphenation_push_char_count(a[0][0].parse().unwrap()),
        "set_hyphenation_remain_char_count" => o.set_hyphenation_remain_char_count(a[0][0].parse().unwrap()),
        "set_letter_spacing" => o.set_letter_spacing(c_letterspacing(&a[0])),
        "set_text_shadow" => o.set_text_shadow(c_length(&a[0]), c_length(&a[1]), if a[2].is_empty() { None } else { Some(c_length(&a[2])) }, c_rgb(&a[3])),
        "set_text_transform" => o.set_text_transform(c_texttransform(&a[0])),
        "set_font_relief" => o.set_font_relief(c_textrelief(&a[0])),
        "set_text_position" => o.set_text_position(c_textposition(&a[0]), if a[1].is_empty() { None } else { Some(c_percent(&a[1])) }),
        "set_rotation_angle" => o.set_rotation_angle(c_angle(&a[0])),
        "set_rotation_scale" => o.set_rotation_scale(c_rotationscale(&a[0])),
        "set_letter_kerning" => o.set_letter_kerning(a[0][0].parse().unwrap()),
        "set_text_combine" => o.set_text_combine(c_textcombine(&a[0])),
        "set_text_combine_start_char" => o.set_text_combine_start_char(a[0][0].parse().unwrap()),
        "set_text_combine_end_char" => o.set_text_combine_end_char(a[0][0].parse().unwrap()),
        "set_text_emphasize" => o.set_text_emphasize(c_textemphasize(&a[0]), c_textemphasizeposition(&a[1])),
        "set_text_line_through_color" => o.set_text_line_through_color(c_rgb(&a[0])),
        "set_text_line_through_mode" => o.set_text_line_through_mode(c_linemode(&a[0])),
        "set_text_line_through_style" => o.set_text_line_through_style(c_linestyle(&a[0])),
        "set_text_line_through_text" => o.set_text_line_through_text(a[0][0].clone()),
        "set_text_line_through_text_style" => o.set_text_line_through_text_style(TextStyleRef::from(a[0][0].as_str())),
        "set_text_line_through_type" => o.set_text_line_through_type(c_linetype(&a[0])),
        "set_text_line_through_width" => o.set_text_line_through_width(c_linewidth(&a[0])),
        "set_font_text_outline" => o.set_font_text_outline(a[0][0].parse().unwrap()),
        "set_text_overline_color" => o.set_text_overline_color(c_rgb(&a[0])),
        "set_text_overline_mode" => o.set_text_overline_mode(c_linemode(&a[0])),
        "set_text_overline_style" => o.set_text_overline_style(c_linestyle(&a[0])),
        "set_text_overline_type" => o.set_text_overline_type(c_linetype(&a[0])),
        "set_text_overline_width" => o.set_text_overline_width(c_linewidth(&a[0])),
        "set_text_underline_color" => o.set_text_underline_color(c_rgb(&a[0])),
        "set_text_underline_mode" => o.set_text_underline_mode(c_linemode(&a[0])),
        "set_text_underline_style" => o.set_text_underline_style(c_linestyle(&a[0])),
        "set_text_underline_type" => o.set_text_underline_type(c_linetype(&a[0])),
        "set_text_underline_width" => o.set_text_underline_width(c_linewidth(&a[0])),
        "set_use_window_font_color" => o.set_use_window_font_color(a[0][0].parse().unwrap()),
        "set_text_condition" => o.set_text_condition(c_textcondition(&a[0])),
        "set_display" => o.set_display(c_textdisplay(&a[0])),
        _ => panic!("no setter {f}"),
    }
}
fn set_fnum(o: &mut ValueFormatNumber, f: &str, a: &[Vec<String>]) {
    match f {
        "set_locale" => o.set_locale(c_locale(&a[0])),
        "set_title" => o.set_title(a[0][0].clone()),
        "set_transliteration_locale" => o.set_transliteration_locale(c_locale(&a[0])),
        "set_transliteration_format" => o.set_transliteration_format(a[0][0].parse().unwrap()),
        "set_transliteration_style" => o.set_transliteration_style(c_transliterationstyle(&a[0])),
        "set_display_name" => o.set_display_name(a[0][0].clone()),
        "set_volatile" => o.set_volatile(a[0][0].parse().unwrap()),
        "set_background_color" => o.set_background_color(c_rgb(&a[0])),
        "set_color" => o.set_color(c_rgb(&a[0])),
        "set_font_name" => o.set_font_name(a[0][0].clone()),
        "set_font_size" => o.set_font_size(c_fontsize(&a[0])),
        "set_font_size_rel" => o.set_font_size_rel(c_fontsize(&a[0])),
        "set_font_style" => o.set_font_style(c_fontstyle(&a[0])),
        "set_font_italic" => o.set_font_italic(),
        "set_font_weight" => o.set_font_weight(c_fontweight(&a[0])),
        "set_font_bold" => o.set_font_bold(),
        "set_font_variant" => o.set_font_variant(c_fontvariant(&a[0])),
        "set_font_attr" => o.set_font_attr(c_fontsize(&a[0]), a[1][0].parse().unwrap(), a[2][0].parse().unwrap()),
        "set_locale_asian" => o.set_locale_asian(c_locale(&a[0])),
        "set_font_name_asian" => o.set_font_name_asian(a[0][0].clone()),
        "set_font_size_asian" => o.set_font_size_asian(c_fontsize(&a[0])),
        "set_font_size_rel_asian" => o.set_font_size_rel_asian(c_fontsize(&a[0])),
        "set_font_style_asian" => o.set_font_style_asian(c_fontstyle(&a[0])),
        "set_font_italic_asian" => o.set_font_italic_asian(),
        "set_font_weight_asian" => o.set_font_weight_asian(c_fontweight(&a[0])),
        "set_font_bold_asian" => o.set_font_bold_asian(),
        "set_font_attr_asian" => o.set_font_attr_asian(c_fontsize(&a[0]), a[1][0].parse().unwrap(), a[2][0].parse().unwrap()),
        "set_locale_complex" => o.set_locale_complex(c_locale(&a[0])),
        "set_font_name_complex" => o.set_font_name_complex(a[0][0].clone()),
        "set_font_size_complex" => o.set_font_size_complex(c_fontsize(&a[0])),
        "set_font_size_rel_complex" => o.set_font_size_rel_complex(c_fontsize(&a[0])),
        "set_font_style_complex" => o.set_font_style_complex(c_fontstyle(&a[0])),
        "set_font_italic_complex" => o.set_font_italic_complex(),
        "set_font_weight_complex" => o.set_font_weight_complex(c_fontweight(&a[0])),
        "set_font_bold_complex" => o.set_font_bold_complex(),
        "set_font_attr_complex" => o.set_font_attr_complex(c_fontsize(&a[0]), a[1][0].parse().unwrap(), a[2][0].parse().unwrap()),
        "set_hyphenate" => o.set_hyphenate(a[0][0].parse().unwrap()),
        "set_hyphenation_push_char_count" => o.set_hyphenation_push_char_count(a[0][0].parse().unwrap()),
        "set_hyphenation_remain_char_count" => o.set_hyphenation_remain_char_count(a[0][0].parse().unwrap()),
        "set_letter_spacing" => o.set_letter_spacing(c_letterspacing(&a[0])),
        "set_text_shadow" => o.set_text_shadow(c_length(&a[0]), c_length(&a[1]), if a[2].is_empty() { None } else { Some(c_length(&a[2])) }, c_rgb(&a[3])),
        "set_text_transform" => o.set_text_transform(c_texttransform(&a[0])),
        "set_font_relief" => o.set_font_relief(c_textrelief(&a[0])),
        "set_text_position" => o.set_text_position(c_textposition(&a[0]), if a[1].is_empty() { None } else { Some(c_percent(&a[1])) }),
        "set_rotation_angle" => o.set_rotation_angle(c_angle(&a[0])),
        "set_rotation_scale" => o.set_rotation_scale(c_rotationscale(&a[0])),
        "set_letter_kerning" => o.set_letter_kerning(a[0][0].parse().unwrap()),
        "set_text_combine" => o.set_text_combine(c_textcombine(&a[0])),
        "set_text_combine_start_char" => o.set_text_combine_start_char(a[0][0].parse().unwrap()),
        "set_text_combine_end_char" => o.set_text_combine_end_char(a[0][0].parse().unwrap()),
        "set_text_emphasize" => o.set_text_emphasize(c_textemphasize(&a[0]), c_textemphasizeposition(&a[1])),
        "set_text_line_through_color" => o.set_text_line_through_color(c_rgb(&a[0])),
        "set_text_line_through_mode" => o.set_text_line_through_mode(c_linemode(&a[0])),
        "set_text_line_through_style" => o.set_text_line_through_style(c_linestyle(&a[0])),
        "set_text_line_through_text" => o.set_text_line_through_text(a[0][0].clone()),
        "set_text_line_through_text_style" => o.set_text_line_through_text_style(TextStyleRef::from(a[0][0].as_str())),
        "set_text_line_through_type" => o.set_text_line_through_type(c_linetype(&a[0])),
        "set_text_line_through_width" => o.set_text_line_through_width(c_linewidth(&a[0])),
        "set_font_text_outline" => o.set_font_text_outline(a[0][0].parse().unwrap()),
        "set_text_overline_color" => o.set_text_overline_color(c_rgb(&a[0])),
        "set_text_overline_mode" => o.set_text_overline_mode(c_linemode(&a[0])),
        "set_text_overline_style" => o.set_text_overline_style(c_linestyle(&a[0])),
        "set_text_overline_type" => o.set_text_overline_type(c_linetype(&a[0])),
        "set_text_overline_width" => o.set_text_overline_width(c_linewidth(&a[0])),
        "set_text_underline_color" => o.set_text_underline_color(c_rgb(&a[0])),
        "set_text_underline_mode" => o.set_text_underline_mode(c_linemode(&a[0])),
        "set_text_underline_style" => o.set_text_underline_style(c_linestyle(&a[0])),
        "set_text_underline_type" => o.set_text_underline_type(c_linetype(&a[0])),
        "set_text_underline_width" => o.set_text_underline_width(c_linewidth(&a[0])),
        "set_use_window_font_color" => o.set_use_window_font_color(a[0][0].parse().unwrap()),
        "set_text_condition" => o.set_text_condition(c_textcondition(&a[0])),
        "set_display" => o.set_display(c_textdisplay(&a[0])),
        _ => panic!("no setter {f}"),
    }
}
fn set_fperc(o: &mut ValueFormatPercentage, f: &str, a: &[Vec<String>]) {
    match f {
        "set_locale" => o.set_locale(c_locale(&a[0])),
        "set_title" => o.set_title(a[0][0].clone()),
        "set_transliteration_locale" => o.set_transliteration_locale(c_locale(&a[0])),
        "set_transliteration_format" => o.set_transliteration_format(a[0][0].parse().unwrap()),
        "set_transliteration_style" => o.set_transliteration_style(c_transliterationstyle(&a[0])),
        "set_display_name" => o.set_display_name(a[0][0].clone()),
        "set_volatile" => o.set_volatile(a[0][0].parse().unwrap()),
        "set_background_color" => o.set_background_color(c_rgb(&a[0])),
        "set_color" => o.set_color(c_rgb(&a[0])),
        "set_font_name" => o.set_font_name(a[0][0].clone()),
        "set_font_size" => o.set_font_size(c_fontsize(&a[0])),
        "set_font_size_rel" => o.set_font_size_rel(c_fontsize(&a[0])),
        "set_font_style" => o.set_font_style(c_fontstyle(&a[0])),
        "set_font_italic" => o.set_font_italic(),
        "set_font_weight" => o.set_font_weight(c_fontweight(&a[0])),
        "set_font_bold" => o.set_font_bold(),
        "set_font_variant" => o.set_font_variant(c_fontvariant(&a[0])),
        "set_font_attr" => o.set_font_attr(c_fontsize(&a[0]), a[1][0].parse().unwrap(), a[2][0].parse().unwrap()),
        "set_locale_asian" => o.set_locale_asian(c_locale(&a[0])),
        "set_font_name_asian" => o.set_font_name_asian(a[0][0].clone()),
        "set_font_size_asian" => o.set_font_size_asian(c_fontsize(&a[0])),
        "set_font_size_rel_asian" => o.set_font_size_rel_asian(c_fontsize(&a[0])),
        "set_font_style_asian" => o.set_font_style_asian(c_fontstyle(&a[0])),
        "set_font_italic_asian" => o.set_font_italic_asian(),
        "set_font_weight_asian" => o.set_font_weight_asian(c_fontweight(&a[0])),
        "set_font_bold_asian" => o.set_font_bold_asian(),
        "set_font_attr_asian" => o.set_font_attr_asian(c_fontsize(&a[0]), a[1][0].parse().unwrap(), a[2][0].parse().unwrap()),
        "set_locale_complex" => o.set_locale_complex(c_locale(&a[0])),
        "set_font_name_complex" => o.set_font_name_complex(a[0][0].clone()),
        "set_font_size_complex" => o.set_font_size_complex(c_fontsize(&a[0])),
        "set_font_size_rel_complex" => o.set_font_size_rel_complex(c_fontsize(&a[0])),
        "set_font_style_complex" => o.set_font_style_complex(c_fontstyle(&a[0])),
        "set_font_italic_complex" => o.set_font_italic_complex(),
        "set_font_weight_complex" => o.set_font_weight_complex(c_fontweight(&a[0])),
        "set_font_bold_complex" => o.set_font_bold_complex(),
        "set_font_attr_complex" => o.set_font_attr_complex(c_fontsize(&a[0]), a[1][0].parse().unwrap(), a[2][0].parse().unwrap()),
        "set_hyphenate" => o.set_hyphenate(a[0][0].parse().unwrap()),
        "set_hyphenation_push_char_count" => o.set_hyphenation_push_char_count(a[0][0].parse().unwrap()),
        "set_hyphenation_remain_char_count" => o.set_hyphenation_remain_char_count(a[0][0].parse().unwrap()),
        "set_letter_spacing" => o.set_letter_spacing(c_letterspacing(&a[0])),
        "set_text_shadow" => o.set_text_shadow(c_length(&a[0]), c_length(&a[1]), if a[2].is_empty() { None } else { Some(c_length(&a[2])) }, c_rgb(&a[3])),
        "set_text_transform" => o.set_text_transform(c_texttransform(&a[0])),
        "set_font_relief" => o.set_font_relief(c_textrelief(&a[0])),
        "set_text_position" => o.set_text_position(c_textposition(&a[0]), if a[1].is_empty() { None } else { Some(c_percent(&a[1])) }),
        "set_rotation_angle" => o.set_rotation_angle(c_angle(&a[0])),
        "set_rotation_scale" => o.set_rotation_scale(c_rotationscale(&a[0])),
        "set_letter_kerning" => o.set_letter_kerning(a[0][0].parse().unwrap()),
        "set_text_combine" => o.set_text_combine(c_textcombine(&a[0])),
        "set_text_combine_start_char" => o.set_text_combine_start_char(a[0][0].parse().unwrap()),
        "set_text_combine_end_char" => o.set_text_combine_end_char(a[0][0].parse().unwrap()),
        "set_text_emphasize" => o.set_text_emphasize(c_textemphasize(&a[0]), c_textemphasizeposition(&a[1])),
        "set_text_line_through_color" => o.set_text_line_through_color(c_rgb(&a[0])),
        "set_text_line_through_mode" => o.set_text_line_through_mode(c_linemode(&a[0])),
        "set_text_line_through_style" => o.set_text_line_through_style(c_linestyle(&a[0])),
        "set_text_line_through_text" => o.set_text_line_through_text(a[0][0].clone()),
        "set_text_line_through_text_style" => o.set_text_line_through_text_style(TextStyleRef::from(a[0][0].as_str())),
        "set_text_line_through_type" => o.set_text_line_through_type(c_linetype(&a[0])),
        "set_text_line_through_width" => o.set_text_line_through_width(c_linewidth(&a[0])),
        "set_font_text_outline" => o.set_font_text_outline(a[0][0].parse().unwrap()),
        "set_text_overline_color" => o.set_text_overline_color(c_rgb(&a[0])),
        "set_text_overline_mode" => o.set_text_overline_mode(c_linemode(&a[0])),
        "set_text_overline_style" => o.set_text_overline_style(c_linestyle(&a[0])),
        "set_text_overline_type" => o.set_text_overline_type(c_linetype(&a[0])),
        "set_text_overline_width" => o.set_text_overline_width(c_linewidth(&a[0])),
        "set_text_underline_color" => o.set_text_underline_color(c_rgb(&a[0])),
        "set_text_underline_mode" => o.set_text_underline_mode(c_linemode(&a[0])),
        "set_text_underline_style" => o.set_text_underline_style(c_linestyle(&a[0])),
        "set_text_underline_type" => o.set_text_underline_type(c_linetype(&a[0])),
        "set_text_underline_width" => o.set_text_underline_width(c_linewidth(&a[0])),
        "set_use_window_font_color" => o.set_use_window_font_color(a[0][0].parse().unwrap()),
        "set_text_condition" => o.set_text_condition(c_textcondition(&a[0])),
        "set_display" => o.set_display(c_textdisplay(&a[0])),
        _ => panic!("no setter {f}"),
    }
}
fn set_fcurr(o: &mut ValueFormatCurrency, f: &str, a: &[Vec<String>]) {
    match f {
        "set_automatic_order" => o.set_automatic_order(a[0][0].parse().unwrap()),
        "set_locale" => o.set_locale(c_locale(&a[0])),
        "set_title" => o.set_title(a[0][0].clone()),
        "set_transliteration_locale" => o.set_transliteration_locale(c_locale(&a[0])),
        "set_transliteration_format" => o.set_transliteration_format(a[0][0].parse().unwrap()),
        "set_transliteration_style" => o.set_transliteration_style(c_transliterationstyle(&a[0])),
        "set_display_name" => o.set_display_name(a[0][0].clone()),
        "set_volatile" => o.set_volatile(a[0][0].parse().unwrap()),
        "set_background_color" => o.set_background_color(c_rgb(&a[0])),
        "set_color" => o.set_color(c_rgb(&a[0])),
        "set_font_name" => o.set_font_name(a[0][0].clone()),
        "set_font_size" => o.set_font_size(c_fontsize(&a[0])),
        "set_font_size_rel" => o.set_font_size_rel(c_fontsize(&a[0])),
        "set_font_style" => o.set_font_style(c_fontstyle(&a[0])),
        "set_font_italic" => o.set_font_italic(),
        "set_font_weight" => o.set_font_weight(c_fontweight(&a[0])),
        "set_font_bold" => o.set_font_bold(),
        "set_font_variant" => o.set_font_variant(c_fontvariant(&a[0])),
        "set_font_attr" => o.set_font_attr(c_fontsize(&a[0]), a[1][0].parse().unwrap(), a[2][0].parse().unwrap()),
        "set_locale_asian" => o.set_locale_asian(c_locale(&a[0])),
        "set_font_name_asian" => o.set_font_name_asian(a[0][0].clone()),
        "set_font_size_asian" => o.set_font_size_asian(c_fontsize(&a[0])),
        "set_font_size_rel_asian" => o.set_font_size_rel_asian(c_fontsize(&a[0])),
        "set_font_style_asian" => o.set_font_style_asian(c_fontstyle(&a[0])),
        "set_font_italic_asian" => o.set_font_italic_asian(),
        "set_font_weight_asian" => o.set_font_weight_asian(c_fontweight(&a[0])),
        "set_font_bold_asian" => o.set_font_bold_asian(),
        "set_font_attr_asian" => o.set_font_attr_asian(c_fontsize(&a[0]), a[1][0].parse().unwrap(), a[2][0].parse().unwrap()),
        "set_locale_complex" => o.set_locale_complex(c_locale(&a[0])),
        "set_font_name_complex" => o.set_font_name_complex(a[0][0].clone()),
        "set_font_size_complex" => o.set_font_size_complex(c_fontsize(&a[0])),
        "set_font_size_rel_complex" => o.set_font_size_rel_complex(c_fontsize(&a[0])),
        "set_font_style_complex" => o.set_font_style_complex(c_fontstyle(&a[0])),
        "set_font_italic_complex" => o.set_font_italic_complex(),
        "set_font_weight_complex" => o.set_font_weight_complex(c_fontweight(&a[0])),
        "set_font_bold_complex" => o.set_font_bold_complex(),
        "set_font_attr_complex" => o.set_font_attr_complex(c_fontsize(&a[0]), a[1][0].parse().unwrap(), a[2][0].parse().unwrap()),
        "set_hyphenate" => o.set_hyphenate(a[0][0].parse().unwrap()),
        "set_hyphenation_push_char_count" => o.set_hyphenation_push_char_count(a[0][0].parse().unwrap()),
        "set_hyphenation_remain_char_count" => o.set_hyphenation_remain_char_count(a[0][0].parse().unwrap()),
        "set_letter_spacing" => o.set_letter_spacing(c_letterspacing(&a[0])),
        "set_text_shadow" => o.set_text_shadow(c_length(&a[0]), c_length(&a[1]), if a[2].is_empty() { None } else { Some(c_length(&a[2])) }, c_rgb(&a[3])),
        "set_text_transform" => o.set_text_transform(c_texttransform(&a[0])),
        "set_font_relief" => o.set_font_relief(c_textrelief(&a[0])),
        "set_text_position" => o.set_text_position(c_textposition(&a[0]), if a[1].is_empty() { None } else { Some(c_percent(&a[1])) }),
        "set_rotation_angle" => o.set_rotation_angle(c_angle(&a[0])),
        "set_rotation_scale" => o.set_rotation_scale(c_rotationscale(&a[0])),
        "set_letter_kerning" => o.set_letter_kerning(a[0][0].parse().unwrap()),
        "set_text_combine" => o.set_text_combine(c_textcombine(&a[0])),
        "set_text_combine_start_char" => o.set_text_combine_start_char(a[0][0].parse().unwrap()),
        "set_text_combine_end_char" => o.set_text_combine_end_char(a[0][0].parse().unwrap()),
        "set_text_emphasize" => o.set_text_emphasize(c_textemphasize(&a[0]), c_textemphasizeposition(&a[1])),
        "set_text_line_through_color" => o.set_text_line_through_color(c_rgb(&a[0])),
        "set_text_line_through_mode" => o.set_text_line_through_mode(c_linemode(&a[0])),
        "set_text_line_through_style" => o.set_text_line_through_style(c_linestyle(&a[0])),
        "set_text_line_through_text" => o.set_text_line_through_text(a[0][0].clone()),
        "set_text_line_through_text_style" => o.set_text_line_through_text_style(TextStyleRef::from(a[0][0].as_str())),
        "set_text_line_through_type" => o.set_text_line_through_type(c_linetype(&a[0])),
        "set_text_line_through_width" => o.set_text_line_through_width(c_linewidth(&a[0])),
        "set_font_text_outline" => o.set_font_text_outline(a[0][0].parse().unwrap()),
        "set_text_overline_color" => o.set_text_overline_color(c_rgb(&a[0])),
        "set_text_overline_mode" => o.set_text_overline_mode(c_linemode(&a[0])),
        "set_text_overline_style" => o.set_text_overline_style(c_linestyle(&a[0])),
        "set_text_overline_type" => o.set_text_overline_type(c_linetype(&a[0])),
        "set_text_overline_width" => o.set_text_overline_width(c_linewidth(&a[0])),
        "set_text_underline_color" => o.set_text_underline_color(c_rgb(&a[0])),
        "set_text_underline_mode" => o.set_text_underline_mode(c_linemode(&a[0])),
        "set_text_underline_style" => o.set_text_underline_style(c_linestyle(&a[0])),
        "set_text_underline_type" => o.set_text_underline_type(c_linetype(&a[0])),
        "set_text_underline_width" => o.set_text_underline_width(c_linewidth(&a[0])),
        "set_use_window_font_color" => o.set_use_window_font_color(a[0][0].parse().unwrap()),
        "set_text_condition" => o.set_text_condition(c_textcondition(&a[0])),
        "set_display" => o.set_display(c_textdisplay(&a[0])),
        _ => panic!("no setter {f}"),
    }
}
fn set_ftext(o: &mut ValueFormatText, f: &str, a: &[Vec<String>]) {
    match f {
        "set_locale" => o.set_locale(c_locale(&a[0])),
        "set_title" => o.set_title(a[0][0].clone()),
        "set_transliteration_locale" => o.set_transliteration_locale(c_locale(&a[0])),
        "set_transliteration_format" => o.set_transliteration_format(a[0][0].parse().unwrap()),
        "set_transliteration_style" => o.set_transliteration_style(c_transliterationstyle(&a[0])),
        "set_display_name" => o.set_display_name(a[0][0].clone()),
        "set_volatile" => o.set_volatile(a[0][0].parse().unwrap()),
        "set_background_color" => o.set_background_color(c_rgb(&a[0])),
        "set_color" => o.set_color(c_rgb(&a[0])),
        "set_font_name" => o.set_font_name(a[0][0].clone()),
        "set_font_size" => o.set_font_size(c_fontsize(&a[0])),
        "set_font_size_rel" => o.set_font_size_rel(c_fontsize(&a[0])),
        "set_font_style" => o.set_font_style(c_fontstyle(&a[0])),
        "set_font_italic" => o.set_font_italic(),
        "set_font_weight" => o.set_font_weight(c_fontweight(&a[0])),
        "set_font_bold" => o.set_font_bold(),
        "set_font_variant" => o.set_font_variant(c_fontvariant(&a[0])),
        "set_font_attr" => o.set_font_attr(c_fontsize(&a[0]), a[1][0].parse().unwrap(), a[2][0].parse().unwrap()),
        "set_locale_asian" => o.set_locale_asian(c_locale(&a[0])),
        "set_font_name_asian" => o.set_font_name_asian(a[0][0].clone()),
        "set_font_size_asian" => o.set_font_size_asian(c_fontsize(&a[0])),
        "set_font_size_rel_asian" => o.set_font_size_rel_asian(c_fontsize(&a[0])),
        "set_font_style_asian" => o.set_font_style_asian(c_fontstyle(&a[0])),
        "set_font_italic_asian" => o.set_font_italic_asian(),
        "set_font_weight_asian" => o.set_font_weight_asian(c_fontweight(&a[0])),
        "set_font_bold_asian" => o.set_font_bold_asian(),
        "set_font_attr_asian" => o.set_font_attr_asian(c_fontsize(&a[0]), a[1][0].parse().unwrap(), a[2][0].parse().unwrap()),
        "set_locale_complex" => o.set_locale_complex(c_locale(&a[0])),
        "set_font_name_complex" => o.set_font_name_complex(a[0][0].clone()),
        "set_font_size_complex" => o.set_font_size_complex(c_fontsize(&a[0])),
        "set_font_size_rel_complex" => o.set_font_size_rel_complex(c_fontsize(&a[0])),
        "set_font_style_complex" => o.set_font_style_complex(c_fontstyle(&a[0])),
        "set_font_italic_complex" => o.set_font_italic_complex(),
        "set_font_weight_complex" => o.set_font_weight_complex(c_fontweight(&a[0])),
        "set_font_bold_complex" => o.set_font_bold_complex(),
        "set_font_attr_complex" => o.set_font_attr_complex(c_fontsize(&a[0]), a[1][0].parse().unwrap(), a[2][0].parse().unwrap()),
        "set_hyphenate" => o.set_hyphenate(a[0][0].parse().unwrap()),
        "set_hyphenation_push_char_count" => o.set_hyphenation_push_char_count(a[0][0].parse().unwrap()),
        "set_hyphenation_remain_char_count" => o.set_hyphenation_remain_char_count(a[0][0].parse().unwrap()),
        "set_letter_spacing" => o.set_letter_spacing(c_letterspacing(&a[0])),
        "set_text_shadow" => o.set_text_shadow(c_length(&a[0]), c_length(&a[1]), if a[2].is_empty() { None } else { Some(c_length(&a[2])) }, c_rgb(&a[3])),
        "set_text_transform" => o.set_text_transform(c_texttransform(&a[0])),
        "set_font_relief" => o.set_font_relief(c_textrelief(&a[0])),
        "set_text_position" => o.set_text_position(c_textposition(&a[0]), if a[1].is_empty() { None } else { Some(c_percent(&a[1])) }),
        "set_rotation_angle" => o.set_rotation_angle(c_angle(&a[0])),
        "set_rotation_scale" => o.set_rotation_scale(c_rotationscale(&a[0])),
        "set_letter_kerning" => o.set_letter_kerning(a[0][0].parse().unwrap()),
        "set_text_combine" => o.set_text_combine(c_textcombine(&a[0])),
        "set_text_combine_start_char" => o.set_text_combine_start_char(a[0][0].parse().unwrap()),
        "set_text_combine_end_char" => o.set_text_combine_end_char(a[0][0].parse().unwrap()),
        "set_text_emphasize" => o.set_text_emphasize(c_textemphasize(&a[0]), c_textemphasizeposition(&a[1])),
        "set_text_line_through_color" => o.set_text_line_through_color(c_rgb(&a[0])),
        "set_text_line_through_mode" => o.set_text_line_through_mode(c_linemode(&a[0])),
        "set_text_line_through_style" => o.set_text_line_through_style(c_linestyle(&a[0])),
        "set_text_line_through_text" => o.set_text_line_through_text(a[0][0].clone()),
        "set_text_line_through_text_style" => o.set_text_line_through_text_style(TextStyleRef::from(a[0][0].as_str())),
        "set_text_line_through_type" => o.set_text_line_through_type(c_linetype(&a[0])),
        "set_text_line_through_width" => o.set_text_line_through_width(c_linewidth(&a[0])),
        "set_font_text_outline" => o.set_font_text_outline(a[0][0].parse().unwrap()),
        "set_text_overline_color" => o.set_text_overline_color(c_rgb(&a[0])),
        "set_text_overline_mode" => o.set_text_overline_mode(c_linemode(&a[0])),
        "set_text_overline_style" => o.set_text_overline_style(c_linestyle(&a[0])),
        "set_text_overline_type" => o.set_text_overline_type(c_linetype(&a[0])),
        "set_text_overline_width" => o.set_text_overline_width(c_linewidth(&a[0])),
        "set_text_underline_color" => o.set_text_underline_color(c_rgb(&a[0])),
        "set_text_underline_mode" => o.set_text_underline_mode(c_linemode(&a[0])),
        "set_text_underline_style" => o.set_text_underline_style(c_linestyle(&a[0])),
        "set_text_underline_type" => o.set_text_underline_type(c_linetype(&a[0])),
        "set_text_underline_width" => o.set_text_underline_width(c_linewidth(&a[0])),
        "set_use_window_font_color" => o.set_use_window_font_color(a[0][0].parse().unwrap()),
        "set_text_condition" => o.set_text_condition(c_textcondition(&a[0])),
        "set_display" => o.set_display(c_textdisplay(&a[0])),
        _ => panic!("no setter {f}"),
    }
}
fn set_fdate(o: &mut ValueFormatDateTime, f: &str, a: &[Vec<String>]) {
    match f {
        "set_automatic_order" => o.set_automatic_order(a[0][0].parse().unwrap()),
        "set_format_source" => o.set_format_source(c_formatsource(&a[0])),
        "set_locale" => o.set_locale(c_locale(&a[0])),
        "set_title" => o.set_title(a[0][0].clone()),
        "set_transliteration_locale" => o.set_transliteration_locale(c_locale(&a[0])),
        "set_transliteration_format" => o.set_transliteration_format(a[0][0].parse().unwrap()),
        "set_transliteration_style" => o.set_transliteration_style(c_transliterationstyle(&a[0])),
        "set_display_name" => o.set_display_name(a[0][0].clone()),
        "set_volatile" => o.set_volatile(a[0][0].parse().unwrap()),
        "set_background_color" => o.set_background_color(c_rgb(&a[0])),
        "set_color" => o.set_color(c_rgb(&a[0])),
        "set_font_name" => o.set_font_name(a[0][0].clone()),
        "set_font_size" => o.set_font_size(c_fontsize(&a[0])),
        "set_font_size_rel" => o.set_font_size_rel(c_fontsize(&a[0])),
        "set_font_style" => o.set_font_style(c_fontstyle(&a[0])),
        "set_font_italic" => o.set_font_italic(),
        "set_font_weight" => o.set_font_weight(c_fontweight(&a[0])),
        "set_font_bold" => o.set_font_bold(),
        "set_font_variant" => o.set_font_variant(c_fontvariant(&a[0])),
        "set_font_attr" => o.set_font_attr(c_fontsize(&a[0]), a[1][0].parse().unwrap(), a[2][0].parse().unwrap()),
        "set_locale_asian" => o.set_locale_asian(c_locale(&a[0])),
        "set_font_name_asian" => o.set_font_name_asian(a[0][0].clone()),
        "set_font_size_asian" => o.set_font_size_asian(c_fontsize(&a[0])),
        "set_font_size_rel_asian" => o.set_font_size_rel_asian(c_fontsize(&a[0])),
        "set_font_style_asian" => o.set_font_style_asian(c_fontstyle(&a[0])),
        "set_font_italic_asian" => o.set_font_italic_asian(),
        "set_font_weight_asian" => o.set_font_weight_asian(c_fontweight(&a[0])),
        "set_font_bold_asian" => o.set_font_bold_asian(),
        "set_font_attr_asian" => o.set_font_attr_asian(c_fontsize(&a[0]), a[1][0].parse().unwrap(), a[2][0].parse().unwrap()),
        "set_locale_complex" => o.set_locale_complex(c_locale(&a[0])),
        "set_font_name_complex" => o.set_font_name_complex(a[0][0].clone()),
        "set_font_size_complex" => o.set_font_size_complex(c_fontsize(&a[0])),
        "set_font_size_rel_complex" => o.set_font_size_rel_complex(c_fontsize(&a[0])),
        "set_font_style_complex" => o.set_font_style_complex(c_fontstyle(&a[0])),
        "set_font_italic_complex" => o.set_font_italic_complex(),
        "set_font_weight_complex" => o.set_font_weight_complex(c_fontweight(&a[0])),
        "set_font_bold_complex" => o.set_font_bold_complex(),
        "set_font_attr_complex" => o.set_font_attr_complex(c_fontsize(&a[0]), a[1][0].parse().unwrap(), a[2][0].parse().unwrap()),
        "set_hyphenate" => o.set_hyphenate(a[0][0].parse().unwrap()),
        "set_hyphenation_push_char_count" => o.set_hyphenation_push_char_count(a[0][0].parse().unwrap()),
        "set_hyphenation_remain_char_count" => o.set_hyphenation_remain_char_count(a[0][0].parse().unwrap()),
        "set_letter_spacing" => o.set_letter_spacing(c_letterspacing(&a[0])),
        "set_text_shadow" => o.set_text_shadow(c_length(&a[0]), c_length(&a[1]), if a[2].is_empty() { None } else { Some(c_length(&a[2])) }, c_rgb(&a[3])),
        "set_text_transform" => o.set_text_transform(c_texttransform(&a[0])),
        "set_font_relief" => o.set_font_relief(c_textrelief(&a[0])),
        "set_text_position" => o.set_text_position(c_textposition(&a[0]), if a[1].is_empty() { None } else { Some(c_percent(&a[1])) }),
        "set_rotation_angle" => o.set_rotation_angle(c_angle(&a[0])),
        "set_rotation_scale" => o.set_rotation_scale(c_rotationscale(&a[0])),
        "set_letter_kerning" => o.set_letter_kerning(a[0][0].parse().unwrap()),
        "set_text_combine" => o.set_text_combine(c_textcombine(&a[0])),
        "set_text_combine_start_char" => o.set_text_combine_start_char(a[0][0].parse().unwrap()),
        "set_text_combine_end_char" => o.set_text_combine_end_char(a[0][0].parse().unwrap()),
        "set_text_emphasize" => o.set_text_emphasize(c_textemphasize(&a[0]), c_textemphasizeposition(&a[1])),
        "set_text_line_through_color" => o.set_text_line_through_color(c_rgb(&a[0])),
        "set_text_line_through_mode" => o.set_text_line_through_mode(c_linemode(&a[0])),
        "set_text_line_through_style" => o.set_text_line_through_style(c_linestyle(&a[0])),
        "set_text_line_through_text" => o.set_text_line_through_text(a[0][0].clone()),
        "set_text_line_through_text_style" => o.set_text_line_through_text_style(TextStyleRef::from(a[0][0].as_str())),
        "set_text_line_through_type" => o.set_text_line_through_type(c_linetype(&a[0])),
        "set_text_line_through_width" => o.set_text_line_through_width(c_linewidth(&a[0])),
        "set_font_text_outline" => o.set_font_text_outline(a[0][0].parse().unwrap()),
        "set_text_overline_color" => o.set_text_overline_color(c_rgb(&a[0])),
        "set_text_overline_mode" => o.set_text_overline_mode(c_linemode(&a[0])),
        "set_text_overline_style" => o.set_text_overline_style(c_linestyle(&a[0])),
        "set_text_overline_type" => o.set_text_overline_type(c_linetype(&a[0])),
        "set_text_overline_width" => o.set_text_overline_width(c_linewidth(&a[0])),
        "set_text_underline_color" => o.set_text_underline_color(c_rgb(&a[0])),
        "set_text_underline_mode" => o.set_text_underline_mode(c_linemode(&a[0])),
        "set_text_underline_style" => o.set_text_underline_style(c_linestyle(&a[0])),
        "set_text_underline_type" => o.set_text_underline_type(c_linetype(&a[0])),
        "set_text_underline_width" => o.set_text_underline_width(c_linewidth(&a[0])),
        "set_use_window_font_color" => o.set_use_window_font_color(a[0][0].parse().unwrap()),
        "set_text_condition" => o.set_text_condition(c_textcondition(&a[0])),
        "set_display" => o.set_display(c_textdisplay(&a[0])),
        _ => panic!("no setter {f}"),
    }
}
fn set_ftime(o: &mut ValueFormatTimeDuration, f: &str, a: &[Vec<String>]) {
    match f {
        "set_format_source" => o.set_format_source(c_formatsource(&a[0])),
        "set_truncate_on_overflow" => o.set_truncate_on_overflow(a[0][0].parse().unwrap()),
        "set_locale" => o.set_locale(c_locale(&a[0])),
        "set_title" => o.set_title(a[0][0].clone()),
        "set_transliteration_locale" => o.set_transliteration_locale(c_locale(&a[0])),
        "set_transliteration_format" => o.set_transliteration_format(a[0][0].parse().unwrap()),
        "set_transliteration_style" => o.set_transliteration_style(c_transliterationstyle(&a[0])),
        "set_display_name" => o.set_display_name(a[0][0].clone()),
        "set_volatile" => o.set_volatile(a[0][0].parse().unwrap()),
        "set_background_color" => o.set_background_color(c_rgb(&a[0])),
        "set_color" => o.set_color(c_rgb(&a[0])),
        "set_font_name" => o.set_font_name(a[0][0].clone()),
        "set_font_size" => o.set_font_size(c_fontsize(&a[0])),
        "set_font_size_rel" => o.set_font_size_rel(c_fontsize(&a[0])),
        "set_font_style" => o.set_font_style(c_fontstyle(&a[0])),
        "set_font_italic" => o.set_font_italic(),
        "set_font_weight" => o.set_font_weight(c_fontweight(&a[0])),
        "set_font_bold" => o.set_font_bold(),
        "set_font_variant" => o.set_font_variant(c_fontvariant(&a[0])),
        "set_font_attr" => o.set_font_attr(c_fontsize(&a[0]), a[1][0].parse().unwrap(), a[2][0].parse().unwrap()),
        "set_locale_asian" => o.set_locale_asian(c_locale(&a[0])),
        "set_font_name_asian" => o.set_font_name_asian(a[0][0].clone()),
        "set_font_size_asian" => o.set_font_size_asian(c_fontsize(&a[0])),
        "set_font_size_rel_asian" => o.set_font_size_rel_asian(c_fontsize(&a[0])),
        "set_font_style_asian" => o.set_font_style_asian(c_fontstyle(&a[0])),
        "set_font_italic_asian" => o.set_font_italic_asian(),
        "set_font_weight_asian" => o.set_font_weight_asian(c_fontweight(&a[0])),
        "set_font_bold_asian" => o.set_font_bold_asian(),
        "set_font_attr_asian" => o.set_font_attr_asian(c_fontsize(&a[0]), a[1][0].parse().unwrap(), a[2][0].parse().unwrap()),
        "set_locale_complex" => o.set_locale_complex(c_locale(&a[0])),
        "set_font_name_complex" => o.set_font_name_complex(a[0][0].clone()),
        "set_font_size_complex" => o.set_font_size_complex(c_fontsize(&a[0])),
        "set_font_size_rel_complex" => o.set_font_size_rel_complex(c_fontsize(&a[0])),
        "set_font_style_complex" => o.set_font_style_complex(c_fontstyle(&a[0])),
        "set_font_italic_complex" => o.set_font_italic_complex(),
        "set_font_weight_complex" => o.set_font_weight_complex(c_fontweight(&a[0])),
        "set_font_bold_complex" => o.set_font_bold_complex(),
        "set_font_attr_complex" => o.set_font_attr_complex(c_fontsize(&a[0]), a[1][0].parse().unwrap(), a[2][0].parse().unwrap()),
        "set_hyphenate" => o.set_hyphenate(a[0][0].parse().unwrap()),
        "set_hyphenation_push_char_count" => o.set_hyphenation_push_char_count(a[0][0].parse().unwrap()),
        "set_hyphenation_remain_char_count" => o.set_hyphenation_remain_char_count(a[0][0].parse().unwrap()),
        "set_letter_spacing" => o.set_letter_spacing(c_letterspacing(&a[0])),
        "set_text_shadow" => o.set_text_shadow(c_length(&a[0]), c_length(&a[1]), if a[2].is_empty() { None } else { Some(c_length(&a[2])) }, c_rgb(&a[3])),
        "set_text_transform" => o.set_text_transform(c_texttransform(&a[0])),
        "set_font_relief" => o.set_font_relief(c_textrelief(&a[0])),
        "set_text_position" => o.set_text_position(c_textposition(&a[0]), if a[1].is_empty() { None } else { Some(c_percent(&a[1])) }),
        "set_rotation_angle" => o.set_rotation_angle(c_angle(&a[0])),
        "set_rotation_scale" => o.set_rotation_scale(c_rotationscale(&a[0])),
        "set_letter_kerning" => o.set_letter_kerning(a[0][0].parse().unwrap()),
        "set_text_combine" => o.set_text_combine(c_textcombine(&a[0])),
        "set_text_combine_start_char" => o.set_text_combine_start_char(a[0][0].parse().unwrap()),
        "set_text_combine_end_char" => o.set_text_combine_end_char(a[0][0].parse().unwrap()),
        "set_text_emphasize" => o.set_text_emphasize(c_textemphasize(&a[0]), c_textemphasizeposition(&a[1])),
        "set_text_line_through_color" => o.set_text_line_through_color(c_rgb(&a[0])),
        "set_text_line_through_mode" => o.set_text_line_through_mode(c_linemode(&a[0])),
        "set_text_line_through_style" => o.set_text_line_through_style(c_linestyle(&a[0])),
        "set_text_line_through_text" => o.set_text_line_through_text(a[0][0].clone()),
        "set_text_line_through_text_style" => o.set_text_line_through_text_style(TextStyleRef::from(a[0][0].as_str())),
        "set_text_line_through_type" => o.set_text_line_through_type(c_linetype(&a[0])),
        "set_text_line_through_width" => o.set_text_line_through_width(c_linewidth(&a[0])),
        "set_font_text_outline" => o.set_font_text_outline(a[0][0].parse().unwrap()),
        "set_text_overline_color" => o.set_text_overline_color(c_rgb(&a[0])),
        "set_text_overline_mode" => o.set_text_overline_mode(c_linemode(&a[0])),
        "set_text_overline_style" => o.set_text_overline_style(c_linestyle(&a[0])),
        "set_text_overline_type" => o.set_text_overline_type(c_linetype(&a[0])),
        "set_text_overline_width" => o.set_text_overline_width(c_linewidth(&a[0])),
        "set_text_underline_color" => o.set_text_underline_color(c_rgb(&a[0])),
        "set_text_underline_mode" => o.set_text_underline_mode(c_linemode(&a[0])),
        "set_text_underline_style" => o.set_text_underline_style(c_linestyle(&a[0])),
        "set_text_underline_type" => o.set_text_underline_type(c_linetype(&a[0])),
        "set_text_underline_width" => o.set_text_underline_width(c_linewidth(&a[0])),
        "set_use_window_font_color" => o.set_use_window_font_color(a[0][0].parse().unwrap()),
        "set_text_condition" => o.set_text_condition(c_textcondition(&a[0])),
        "set_display" => o.set_display(c_textdisplay(&a[0])),
        _ => panic!("no setter {f}"),
    }
}
fn set_h(o: TextH, f: &str, a: &[Vec<String>]) -> TextH {
    match f {
        "class_names" => o.class_names(&a[0].iter().map(|x| ParagraphStyleRef::from(x.as_str())).collect::<Vec<_>>().iter().collect::<Vec<_>>()),
        "condstyle_name" => o.condstyle_name(&ParagraphStyleRef::from(a[0][0].as_str())),
        "id" => o.id(a[0][0].as_str()),
        "list_header" => o.list_header(a[0][0].parse().unwrap()),
        "outline_level" => o.outline_level(a[0][0].parse().unwrap()),
        "restart_numbering" => o.restart_numbering(a[0][0].parse().unwrap()),
        "start_value" => o.start_value(a[0][0].parse().unwrap()),
        "style_name" => o.style_name(&ParagraphStyleRef::from(a[0][0].as_str())),
        "xml_id" => o.xml_id(a[0][0].as_str()),
        _ => panic!("no setter {f}"),
    }
}
fn set_p(o: TextP, f: &str, a: &[Vec<String>]) -> TextP {
    match f {
        "class_names" => o.class_names(&a[0].iter().map(|x| ParagraphStyleRef::from(x.as_str())).collect::<Vec<_>>().iter().collect::<Vec<_>>()),
        "condstyle_name" => o.condstyle_name(&ParagraphStyleRef::from(a[0][0].as_str())),
        "id" => o.id(a[0][0].as_str()),
        "style_name" => o.style_name(&ParagraphStyleRef::from(a[0][0].as_str())),
        "xml_id" => o.xml_id(a[0][0].as_str()),
        _ => panic!("no setter {f}"),
    }
}
fn set_span(o: TextSpan, f: &str, a: &[Vec<String>]) -> TextSpan {
    match f {
        "class_names" => o.class_names(&a[0].iter().map(|x| TextStyleRef::from(x.as_str())).collect::<Vec<_>>().iter().collect::<Vec<_>>()),
        "style_name" => o.style_name(&TextStyleRef::from(a[0][0].as_str())),
        _ => panic!("no setter {f}"),
    }
}
fn set_a(o: TextA, f: &str, a: &[Vec<String>]) -> TextA {
    match f {
        "style_name" => o.style_name(&TextStyleRef::from(a[0][0].as_str())),
        "visited_style_name" => o.visited_style_name(&TextStyleRef::from(a[0][0].as_str())),
        "href" => o.href(a[0][0].clone()),
        _ => panic!("no setter {f}"),
    }
}
fn set_s(o: TextS, f: &str, a: &[Vec<String>]) -> TextS {
    match f {
        "count" => o.count(a[0][0].parse().unwrap()),
        _ => panic!("no setter {f}"),
    }
}
fn set_tabtag(o: TextTab, f: &str, a: &[Vec<String>]) -> TextTab {
    match f {
        "tab_ref" => o.tab_ref(a[0][0].parse().unwrap()),
        _ => panic!("no setter {f}"),
    }
}
fn setters(k: &str, calls: &[(String, Vec<Vec<String>>)]) -> (Vec<(String, String, String)>, Vec<Vec<String>>) {
    match k {
        "cell" => { let mut o = CellStyle::new_empty(); for (f, a) in calls { set_cell(&mut o, f, a); } let mut m = Vec::new(); put_!(m, "attr", o.attrmap()); put_!(m, "cellstyle", o.cellstyle()); put_!(m, "paragraphstyle", o.paragraphstyle()); put_!(m, "textstyle", o.textstyle()); let g: Vec<Vec<String>> = vec![]; (m, g) }
        "col" => { let mut o = ColStyle::new("x"); for (f, a) in calls { set_col(&mut o, f, a); } let mut m = Vec::new(); put_!(m, "attr", o.attrmap()); put_!(m, "colstyle", o.colstyle()); let g: Vec<Vec<String>> = vec![g_len(o.col_width()), g_flag(o.use_optimal_col_width())]; (m, g) }
        "row" => { let mut o = RowStyle::new("x"); for (f, a) in calls { set_row(&mut o, f, a); } let mut m = Vec::new(); put_!(m, "attr", o.attrmap()); put_!(m, "rowstyle", o.rowstyle()); let g: Vec<Vec<String>> = vec![g_len(o.row_height()), g_flag(o.use_optimal_row_height())]; (m, g) }
        "table" => { let mut o = TableStyle::new("x"); for (f, a) in calls { set_table(&mut o, f, a); } let mut m = Vec::new(); put_!(m, "attr", o.attrmap()); put_!(m, "tablestyle", o.tablestyle()); let g: Vec<Vec<String>> = vec![]; (m, g) }
        "para" => { let mut o = ParagraphStyle::new("x"); for (f, a) in calls { set_para(&mut o, f, a); } let mut m = Vec::new(); put_!(m, "attr", o.attrmap()); put_!(m, "paragraphstyle", o.paragraphstyle()); put_!(m, "textstyle", o.textstyle()); let g: Vec<Vec<String>> = vec![]; (m, g) }
        "text" => { let mut o = TextStyle::new("x"); for (f, a) in calls { set_text(&mut o, f, a); } let mut m = Vec::new(); put_!(m, "attr", o.attrmap()); put_!(m, "textstyle", o.textstyle()); let g: Vec<Vec<String>> = vec![]; (m, g) }
        "ruby" => { let mut o = RubyStyle::new("x"); for (f, a) in calls { set_ruby(&mut o, f, a); } let mut m = Vec::new(); put_!(m, "attr", o.attrmap()); put_!(m, "rubystyle", o.rubystyle()); let g: Vec<Vec<String>> = vec![]; (m, g) }
        "graphic" => { let mut o = GraphicStyle::new("x"); for (f, a) in calls { set_graphic(&mut o, f, a); } let mut m = Vec::new(); put_!(m, "attr", o.attrmap()); put_!(m, "graphicstyle", o.graphicstyle()); put_!(m, "paragraphstyle", o.paragraphstyle()); put_!(m, "textstyle", o.textstyle()); let g: Vec<Vec<String>> = vec![]; (m, g) }
        "font" => { let mut o = FontFaceDecl::new("x"); for (f, a) in calls { set_font(&mut o, f, a); } let mut m = Vec::new(); put_!(m, "attr", o.attrmap()); let g: Vec<Vec<String>> = vec![]; (m, g) }
        "page" => { let mut o = PageStyle::new("x"); for (f, a) in calls { set_page(&mut o, f, a); } let mut m = Vec::new(); put_!(m, "style", o.style()); put_!(m, "headerstyle", o.headerstyle().style()); put_!(m, "footerstyle", o.footerstyle().style()); if let Some(u) = o.page_usage().unwrap() { m.push(("usage".to_string(), "style:page-usage".to_string(), u.to_string())); } let g: Vec<Vec<String>> = vec![g_res(o.page_usage())]; (m, g) }
        "tab" => { let mut o = TabStop::new(); for (f, a) in calls { set_tab(&mut o, f, a); } let mut m = Vec::new(); put_!(m, "attr", o.attrmap()); let g: Vec<Vec<String>> = vec![]; (m, g) }
        "annot" => { let mut o = Annotation::new_empty(); for (f, a) in calls { set_annot(&mut o, f, a); } let mut m = Vec::new(); put_!(m, "attr", o.attrmap()); let g: Vec<Vec<String>> = vec![]; (m, g) }
        "frame" => { let mut o = DrawFrame::new(); for (f, a) in calls { set_frame(&mut o, f, a); } let mut m = Vec::new(); put_!(m, "attr", o.attrmap()); let g: Vec<Vec<String>> = vec![]; (m, g) }
        "image" => { let mut o = DrawImage::new(); for (f, a) in calls { set_image(&mut o, f, a); } let mut m = Vec::new(); put_!(m, "attr", o.attrmap()); let g: Vec<Vec<String>> = vec![]; (m, g) }
        "fbool" => { let mut o = ValueFormatBoolean::new_named("x"); for (f, a) in calls { set_fbool(&mut o, f, a); } let mut m = Vec::new(); put_!(m, "attr", o.attrmap()); put_!(m, "textstyle", o.textstyle()); let g: Vec<Vec<String>> = vec![g_loc(o.locale()), g_loc(o.transliteration_locale()), g_str(o.title()), g_opt(o.transliteration_format()), g_res(o.transliteration_style()), g_opt(o.volatile())]; (m, g) }
        "fnum" => { let mut o = ValueFormatNumber::new_named("x"); for (f, a) in calls { set_fnum(&mut o, f, a); } let mut m = Vec::new(); put_!(m, "attr", o.attrmap()); put_!(m, "textstyle", o.textstyle()); let g: Vec<Vec<String>> = vec![g_loc(o.locale()), g_loc(o.transliteration_locale()), g_str(o.title()), g_opt(o.transliteration_format()), g_res(o.transliteration_style()), g_opt(o.volatile())]; (m, g) }
        "fperc" => { let mut o = ValueFormatPercentage::new_named("x"); for (f, a) in calls { set_fperc(&mut o, f, a); } let mut m = Vec::new(); put_!(m, "attr", o.attrmap()); put_!(m, "textstyle", o.textstyle()); let g: Vec<Vec<String>> = vec![g_loc(o.locale()), g_loc(o.transliteration_locale()), g_str(o.title()), g_opt(o.transliteration_format()), g_res(o.transliteration_style()), g_opt(o.volatile())]; (m, g) }
        "fcurr" => { let mut o = ValueFormatCurrency::new_named("x"); for (f, a) in calls { set_fcurr(&mut o, f, a); } let mut m = Vec::new(); put_!(m, "attr", o.attrmap()); put_!(m, "textstyle", o.textstyle()); let g: Vec<Vec<String>> = vec![g_loc(o.locale()), g_loc(o.transliteration_locale()), g_str(o.title()), g_opt(o.transliteration_format()), g_res(o.transliteration_style()), g_opt(o.volatile()), g_opt(o.automatic_order())]; (m, g) }
        "ftext" => { let mut o = ValueFormatText::new_named("x"); for (f, a) in calls { set_ftext(&mut o, f, a); } let mut m = Vec::new(); put_!(m, "attr", o.attrmap()); put_!(m, "textstyle", o.textstyle()); let g: Vec<Vec<String>> = vec![g_loc(o.locale()), g_loc(o.transliteration_locale()), g_str(o.title()), g_opt(o.transliteration_format()), g_res(o.transliteration_style()), g_opt(o.volatile())]; (m, g) }
        "fdate" => { let mut o = ValueFormatDateTime::new_named("x"); for (f, a) in calls { set_fdate(&mut o, f, a); } let mut m = Vec::new(); put_!(m, "attr", o.attrmap()); put_!(m, "textstyle", o.textstyle()); let g: Vec<Vec<String>> = vec![g_loc(o.locale()), g_loc(o.transliteration_locale()), g_str(o.title()), g_opt(o.transliteration_format()), g_res(o.transliteration_style()), g_opt(o.volatile()), g_opt(o.automatic_order()), g_res(o.format_source())]; (m, g) }
        "ftime" => { let mut o = ValueFormatTimeDuration::new_named("x"); for (f, a) in calls { set_ftime(&mut o, f, a); } let mut m = Vec::new(); put_!(m, "attr", o.attrmap()); put_!(m, "textstyle", o.textstyle()); let g: Vec<Vec<String>> = vec![g_loc(o.locale()), g_loc(o.transliteration_locale()), g_str(o.title()), g_opt(o.transliteration_format()), g_res(o.transliteration_style()), g_opt(o.volatile()), g_res(o.format_source()), g_opt(o.truncate_on_overflow())]; (m, g) }
        "h" => { let mut o = TextH::new(); for (f, a) in calls { o = set_h(o, f, a); } let mut m = Vec::new(); let x = o.into_xmltag(); put_!(m, "tag", x.attrmap()); let g: Vec<Vec<String>> = vec![]; (m, g) }
        "p" => { let mut o = TextP::new(); for (f, a) in calls { o = set_p(o, f, a); } let mut m = Vec::new(); let x = o.into_xmltag(); put_!(m, "tag", x.attrmap()); let g: Vec<Vec<String>> = vec![]; (m, g) }
        "span" => { let mut o = TextSpan::new(); for (f, a) in calls { o = set_span(o, f, a); } let mut m = Vec::new(); let x = o.into_xmltag(); put_!(m, "tag", x.attrmap()); let g: Vec<Vec<String>> = vec![]; (m, g) }
        "a" => { let mut o = TextA::new(); for (f, a) in calls { o = set_a(o, f, a); } let mut m = Vec::new(); let x = o.into_xmltag(); put_!(m, "tag", x.attrmap()); let g: Vec<Vec<String>> = vec![]; (m, g) }
        "s" => { let mut o = TextS::new(); for (f, a) in calls { o = set_s(o, f, a); } let mut m = Vec::new(); let x = o.into_xmltag(); put_!(m, "tag", x.attrmap()); let g: Vec<Vec<String>> = vec![]; (m, g) }
        "tabtag" => { let mut o = TextTab::new(); for (f, a) in calls { o = set_tabtag(o, f, a); } let mut m = Vec::new(); let x = o.into_xmltag(); put_!(m, "tag", x.attrmap()); let g: Vec<Vec<String>> = vec![]; (m, g) }
        _ => panic!("kind {k}"),
    }
}
#[allow(deprecated)]
fn part_fbool(o: &mut ValueFormatBoolean, f: &str, opts: &[(String, Vec<Vec<String>>)]) {
    match f {
        "boolean" => { let b = o.part_boolean(); let _ = opts; 
            b.build(); }
        "push_boolean" => { let a = &opts[0].1; let _ = a; o.push_boolean() }
        _ => panic!("harness: part {f}"),
    }
}
#[allow(deprecated)]
fn part_fnum(o: &mut ValueFormatNumber, f: &str, opts: &[(String, Vec<Vec<String>>)]) {
    match f {
        "fill_character" => { let mut b = o.part_fill_character(); for (f, a) in opts { b = match f.as_str() {
            "fill_char" => b.fill_char(a[0][0].parse().unwrap()),
            "+fill_char" => b.if_then(true, |b| b.fill_char(a[0][0].parse().unwrap())),
            "-fill_char" => b.if_then(false, |b| b.fill_char(a[0][0].parse().unwrap())),
            _ => panic!("harness: option {f}") } }
            b.build(); }
        "fraction" => { let mut b = o.part_fraction(); for (f, a) in opts { b = match f.as_str() {
            "denominator" => b.denominator(a[0][0].parse().unwrap()),
            "+denominator" => b.if_then(true, |b| b.denominator(a[0][0].parse().unwrap())),
            "-denominator" => b.if_then(false, |b| b.denominator(a[0][0].parse().unwrap())),
            "grouping" => b.grouping(),
            "+grouping" => b.if_then(true, |b| b.grouping()),
            "-grouping" => b.if_then(false, |b| b.grouping()),
            "max_denominator" => b.max_denominator(a[0][0].parse().unwrap()),
            "+max_denominator" => b.if_then(true, |b| b.max_denominator(a[0][0].parse().unwrap())),
            "-max_denominator" => b.if_then(false, |b| b.max_denominator(a[0][0].parse().unwrap())),
            "min_denominator_digits" => b.min_denominator_digits(a[0][0].parse().unwrap()),
            "+min_denominator_digits" => b.if_then(true, |b| b.min_denominator_digits(a[0][0].parse().unwrap())),
            "-min_denominator_digits" => b.if_then(false, |b| b.min_denominator_digits(a[0][0].parse().unwrap())),
            "min_integer_digits" => b.min_integer_digits(a[0][0].parse().unwrap()),
            "+min_integer_digits" => b.if_then(true, |b| b.min_integer_digits(a[0][0].parse().unwrap())),
            "-min_integer_digits" => b.if_then(false, |b| b.min_integer_digits(a[0][0].parse().unwrap())),
            "min_numerator_digits" => b.min_numerator_digits(a[0][0].parse().unwrap()),
            "+min_numerator_digits" => b.if_then(true, |b| b.min_numerator_digits(a[0][0].parse().unwrap())),
            "-min_numerator_digits" => b.if_then(false, |b| b.min_numerator_digits(a[0][0].parse().unwrap())),
            _ => panic!("harness: option {f}") } }
            b.build(); }
        "number" => { let mut b = o.part_number(); for (f, a) in opts { b = match f.as_str() {
            "decimal_places" => b.decimal_places(a[0][0].parse().unwrap()),
            "+decimal_places" => b.if_then(true, |b| b.decimal_places(a[0][0].parse().unwrap())),
            "-decimal_places" => b.if_then(false, |b| b.decimal_places(a[0][0].parse().unwrap())),
            "fixed_decimal_places" => b.fixed_decimal_places(a[0][0].parse().unwrap()),
            "+fixed_decimal_places" => b.if_then(true, |b| b.fixed_decimal_places(a[0][0].parse().unwrap())),
            "-fixed_decimal_places" => b.if_then(false, |b| b.fixed_decimal_places(a[0][0].parse().unwrap())),
            "grouping" => b.grouping(),
            "+grouping" => b.if_then(true, |b| b.grouping()),
            "-grouping" => b.if_then(false, |b| b.grouping()),
            "min_decimal_places" => b.min_decimal_places(a[0][0].parse().unwrap()),
            "+min_decimal_places" => b.if_then(true, |b| b.min_decimal_places(a[0][0].parse().unwrap())),
            "-min_decimal_places" => b.if_then(false, |b| b.min_decimal_places(a[0][0].parse().unwrap())),
            "min_integer_digits" => b.min_integer_digits(a[0][0].parse().unwrap()),
            "+min_integer_digits" => b.if_then(true, |b| b.min_integer_digits(a[0][0].parse().unwrap())),
            "-min_integer_digits" => b.if_then(false, |b| b.min_integer_digits(a[0][0].parse().unwrap())),
            "display_factor" => b.display_factor(a[0][0].parse().unwrap()),
            "+display_factor" => b.if_then(true, |b| b.display_factor(a[0][0].parse().unwrap())),
            "-display_factor" => b.if_then(false, |b| b.display_factor(a[0][0].parse().unwrap())),
            "decimal_replacement" => b.decimal_replacement(a[0][0].parse().unwrap()),
            "+decimal_replacement" => b.if_then(true, |b| b.decimal_replacement(a[0][0].parse().unwrap())),
            "-decimal_replacement" => b.if_then(false, |b| b.decimal_replacement(a[0][0].parse().unwrap())),
            "embedded_text" => b.embedded_text(a[0][0].clone(), a[1][0].parse().unwrap()),
            "+embedded_text" => b.if_then(true, |b| b.embedded_text(a[0][0].clone(), a[1][0].parse().unwrap())),
            "-embedded_text" => b.if_then(false, |b| b.embedded_text(a[0][0].clone(), a[1][0].parse().unwrap())),
            _ => panic!("harness: option {f}") } }
            b.build(); }
        "scientific" => { let mut b = o.part_scientific(); for (f, a) in opts { b = match f.as_str() {
            "decimal_places" => b.decimal_places(a[0][0].parse().unwrap()),
            "+decimal_places" => b.if_then(true, |b| b.decimal_places(a[0][0].parse().unwrap())),
            "-decimal_places" => b.if_then(false, |b| b.decimal_places(a[0][0].parse().unwrap())),
            "expontent_interval" => b.expontent_interval(a[0][0].parse().unwrap()),
            "+expontent_interval" => b.if_then(true, |b| b.expontent_interval(a[0][0].parse().unwrap())),
            "-expontent_interval" => b.if_then(false, |b| b.expontent_interval(a[0][0].parse().unwrap())),
            "forced_exponent_sign" => b.forced_exponent_sign(a[0][0].parse().unwrap()),
            "+forced_exponent_sign" => b.if_then(true, |b| b.forced_exponent_sign(a[0][0].parse().unwrap())),
            "-forced_exponent_sign" => b.if_then(false, |b| b.forced_exponent_sign(a[0][0].parse().unwrap())),
            "grouping" => b.grouping(),
            "+grouping" => b.if_then(true, |b| b.grouping()),
            "-grouping" => b.if_then(false, |b| b.grouping()),
            "min_decimal_places" => b.min_decimal_places(a[0][0].parse().unwrap()),
            "+min_decimal_places" => b.if_then(true, |b| b.min_decimal_places(a[0][0].parse().unwrap())),
            "-min_decimal_places" => b.if_then(false, |b| b.min_decimal_places(a[0][0].parse().unwrap())),
            "min_exponent_digits" => b.min_exponent_digits(a[0][0].parse().unwrap()),
            "+min_exponent_digits" => b.if_then(true, |b| b.min_exponent_digits(a[0][0].parse().unwrap())),
            "-min_exponent_digits" => b.if_then(false, |b| b.min_exponent_digits(a[0][0].parse().unwrap())),
            "min_integer_digits" => b.min_integer_digits(a[0][0].parse().unwrap()),
            "+min_integer_digits" => b.if_then(true, |b| b.min_integer_digits(a[0][0].parse().unwrap())),
            "-min_integer_digits" => b.if_then(false, |b| b.min_integer_digits(a[0][0].parse().unwrap())),
            _ => panic!("harness: option {f}") } }
            b.build(); }
        "text" => { let mut b = o.part_text(""); for (f, a) in opts { b = match f.as_str() {
            "text" => b.text(a[0][0].clone()),
            "+text" => b.if_then(true, |b| b.text(a[0][0].clone())),
            "-text" => b.if_then(false, |b| b.text(a[0][0].clone())),
            _ => panic!("harness: option {f}") } }
            b.build(); }
        "push_fraction" => { let a = &opts[0].1; let _ = a; o.push_fraction(a[0][0].parse().unwrap(), a[1][0].parse().unwrap(), a[2][0].parse().unwrap(), a[3][0].parse().unwrap(), a[4][0].parse().unwrap()) }
        "push_number" => { let a = &opts[0].1; let _ = a; o.push_number(a[0][0].parse().unwrap(), a[1][0].parse().unwrap()) }
        "push_number_fix" => { let a = &opts[0].1; let _ = a; o.push_number_fix(a[0][0].parse().unwrap(), a[1][0].parse().unwrap()) }
        "push_scientific" => { let a = &opts[0].1; let _ = a; o.push_scientific(a[0][0].parse().unwrap()) }
        "push_text" => { let a = &opts[0].1; let _ = a; o.push_text(a[0][0].clone()) }
        _ => panic!("harness: part {f}"),
    }
}
#[allow(deprecated)]
fn part_fperc(o: &mut ValueFormatPercentage, f: &str, opts: &[(String, Vec<Vec<String>>)]) {
    match f {
        "fill_character" => { let mut b = o.part_fill_character(); for (f, a) in opts { b = match f.as_str() {
            "fill_char" => b.fill_char(a[0][0].parse().unwrap()),
            "+fill_char" => b.if_then(true, |b| b.fill_char(a[0][0].parse().unwrap())),
            "-fill_char" => b.if_then(false, |b| b.fill_char(a[0][0].parse().unwrap())),
            _ => panic!("harness: option {f}") } }
            b.build(); }
        "number" => { let mut b = o.part_number(); for (f, a) in opts { b = match f.as_str() {
            "decimal_places" => b.decimal_places(a[0][0].parse().unwrap()),
            "+decimal_places" => b.if_then(true, |b| b.decimal_places(a[0][0].parse().unwrap())),
            "-decimal_places" => b.if_then(false, |b| b.decimal_places(a[0][0].parse().unwrap())),
            "fixed_decimal_places" => b.fixed_decimal_places(a[0][0].parse().unwrap()),
            "+fixed_decimal_places" => b.if_then(true, |b| b.fixed_decimal_places(a[0][0].parse().unwrap())),
            "-fixed_decimal_places" => b.if_then(false, |b| b.fixed_decimal_places(a[0][0].parse().unwrap())),
            "grouping" => b.grouping(),
            "+grouping" => b.if_then(true, |b| b.grouping()),
            "-grouping" => b.if_then(false, |b| b.grouping()),
            "min_decimal_places" => b.min_decimal_places(a[0][0].parse().unwrap()),
            "+min_decimal_places" => b.if_then(true, |b| b.min_decimal_places(a[0][0].parse().unwrap())),
            "-min_decimal_places" => b.if_then(false, |b| b.min_decimal_places(a[0][0].parse().unwrap())),
            "min_integer_digits" => b.min_integer_digits(a[0][0].parse().unwrap()),
            "+min_integer_digits" => b.if_then(true, |b| b.min_integer_digits(a[0][0].parse().unwrap())),
            "-min_integer_digits" => b.if_then(false, |b| b.min_integer_digits(a[0][0].parse().unwrap())),
            "display_factor" => b.display_factor(a[0][0].parse().unwrap()),
            "+display_factor" => b.if_then(true, |b| b.display_factor(a[0][0].parse().unwrap())),
            "-display_factor" => b.if_then(false, |b| b.display_factor(a[0][0].parse().unwrap())),
            "decimal_replacement" => b.decimal_replacement(a[0][0].parse().unwrap()),
            "+decimal_replacement" => b.if_then(true, |b| b.decimal_replacement(a[0][0].parse().unwrap())),
            "-decimal_replacement" => b.if_then(false, |b| b.decimal_replacement(a[0][0].parse().unwrap())),
            "embedded_text" => b.embedded_text(a[0][0].clone(), a[1][0].parse().unwrap()),
            "+embedded_text" => b.if_then(true, |b| b.embedded_text(a[0][0].clone(), a[1][0].parse().unwrap())),
            "-embedded_text" => b.if_then(false, |b| b.embedded_text(a[0][0].clone(), a[1][0].parse().unwrap())),
            _ => panic!("harness: option {f}") } }
            b.build(); }
        "text" => { let mut b = o.part_text(""); for (f, a) in opts { b = match f.as_str() {
            "text" => b.text(a[0][0].clone()),
            "+text" => b.if_then(true, |b| b.text(a[0][0].clone())),
            "-text" => b.if_then(false, |b| b.text(a[0][0].clone())),
            _ => panic!("harness: option {f}") } }
            b.build(); }
        "push_number" => { let a = &opts[0].1; let _ = a; o.push_number(a[0][0].parse().unwrap(), a[1][0].parse().unwrap()) }
        "push_number_fix" => { let a = &opts[0].1; let _ = a; o.push_number_fix(a[0][0].parse().unwrap(), a[1][0].parse().unwrap()) }
        "push_text" => { let a = &opts[0].1; let _ = a; o.push_text(a[0][0].clone()) }
        _ => panic!("harness: part {f}"),
    }
}
#[allow(deprecated)]
fn part_fcurr(o: &mut ValueFormatCurrency, f: &str, opts: &[(String, Vec<Vec<String>>)]) {
    match f {
        "currency" => { let mut b = o.part_currency(); for (f, a) in opts { b = match f.as_str() {
            "locale" => b.locale(c_locale(&a[0])),
            "+locale" => b.if_then(true, |b| b.locale(c_locale(&a[0]))),
            "-locale" => b.if_then(false, |b| b.locale(c_locale(&a[0]))),
            "symbol" => b.symbol(a[0][0].clone()),
            "+symbol" => b.if_then(true, |b| b.symbol(a[0][0].clone())),
            "-symbol" => b.if_then(false, |b| b.symbol(a[0][0].clone())),
            _ => panic!("harness: option {f}") } }
            b.build(); }
        "fill_character" => { let mut b = o.part_fill_character(); for (f, a) in opts { b = match f.as_str() {
            "fill_char" => b.fill_char(a[0][0].parse().unwrap()),
            "+fill_char" => b.if_then(true, |b| b.fill_char(a[0][0].parse().unwrap())),
            "-fill_char" => b.if_then(false, |b| b.fill_char(a[0][0].parse().unwrap())),
            _ => panic!("harness: option {f}") } }
            b.build(); }
        "number" => { let mut b = o.part_number(); for (f, a) in opts { b = match f.as_str() {
            "decimal_places" => b.decimal_places(a[0][0].parse().unwrap()),
            "+decimal_places" => b.if_then(true, |b| b.decimal_places(a[0][0].parse().unwrap())),
            "-decimal_places" => b.if_then(false, |b| b.decimal_places(a[0][0].parse().unwrap())),
            "fixed_decimal_places" => b.fixed_decimal_places(a[0][0].parse().unwrap()),
            "+fixed_decimal_places" => b.if_then(true, |b| b.fixed_decimal_places(a[0][0].parse().unwrap())),
            "-fixed_decimal_places" => b.if_then(false, |b| b.fixed_decimal_places(a[0][0].parse().unwrap())),
            "grouping" => b.grouping(),
            "+grouping" => b.if_then(true, |b| b.grouping()),
            "-grouping" => b.if_then(false, |b| b.grouping()),
            "min_decimal_places" => b.min_decimal_places(a[0][0].parse().unwrap()),
            "+min_decimal_places" => b.if_then(true, |b| b.min_decimal_places(a[0][0].parse().unwrap())),
            "-min_decimal_places" => b.if_then(false, |b| b.min_decimal_places(a[0][0].parse().unwrap())),
            "min_integer_digits" => b.min_integer_digits(a[0][0].parse().unwrap()),
            "+min_integer_digits" => b.if_then(true, |b| b.min_integer_digits(a[0][0].parse().unwrap())),
            "-min_integer_digits" => b.if_then(false, |b| b.min_integer_digits(a[0][0].parse().unwrap())),
            "display_factor" => b.display_factor(a[0][0].parse().unwrap()),
            "+display_factor" => b.if_then(true, |b| b.display_factor(a[0][0].parse().unwrap())),
            "-display_factor" => b.if_then(false, |b| b.display_factor(a[0][0].parse().unwrap())),
            "decimal_replacement" => b.decimal_replacement(a[0][0].parse().unwrap()),
            "+decimal_replacement" => b.if_then(true, |b| b.decimal_replacement(a[0][0].parse().unwrap())),
            "-decimal_replacement" => b.if_then(false, |b| b.decimal_replacement(a[0][0].parse().unwrap())),
            "embedded_text" => b.embedded_text(a[0][0].clone(), a[1][0].parse().unwrap()),
            "+embedded_text" => b.if_then(true, |b| b.embedded_text(a[0][0].clone(), a[1][0].parse().unwrap())),
            "-embedded_text" => b.if_then(false, |b| b.embedded_text(a[0][0].clone(), a[1][0].parse().unwrap())),
            _ => panic!("harness: option {f}") } }
            b.build(); }
        "text" => { let mut b = o.part_text(""); for (f, a) in opts { b = match f.as_str() {
            "text" => b.text(a[0][0].clone()),
            "+text" => b.if_then(true, |b| b.text(a[0][0].clone())),
            "-text" => b.if_then(false, |b| b.text(a[0][0].clone())),
            _ => panic!("harness: option {f}") } }
            b.build(); }
        "push_currency_symbol" => { let a = &opts[0].1; let _ = a; o.push_currency_symbol(c_locale(&a[0]), a[1][0].clone()) }
        "push_number" => { let a = &opts[0].1; let _ = a; o.push_number(a[0][0].parse().unwrap(), a[1][0].parse().unwrap()) }
        "push_number_fix" => { let a = &opts[0].1; let _ = a; o.push_number_fix(a[0][0].parse().unwrap(), a[1][0].parse().unwrap()) }
        "push_text" => { let a = &opts[0].1; let _ = a; o.push_text(a[0][0].clone()) }
        _ => panic!("harness: part {f}"),
    }
}
#[allow(deprecated)]
fn part_ftext(o: &mut ValueFormatText, f: &str, opts: &[(String, Vec<Vec<String>>)]) {
    match f {
        "fill_character" => { let mut b = o.part_fill_character(); for (f, a) in opts { b = match f.as_str() {
            "fill_char" => b.fill_char(a[0][0].parse().unwrap()),
            "+fill_char" => b.if_then(true, |b| b.fill_char(a[0][0].parse().unwrap())),
            "-fill_char" => b.if_then(false, |b| b.fill_char(a[0][0].parse().unwrap())),
            _ => panic!("harness: option {f}") } }
            b.build(); }
        "text" => { let mut b = o.part_text(""); for (f, a) in opts { b = match f.as_str() {
            "text" => b.text(a[0][0].clone()),
            "+text" => b.if_then(true, |b| b.text(a[0][0].clone())),
            "-text" => b.if_then(false, |b| b.text(a[0][0].clone())),
            _ => panic!("harness: option {f}") } }
            b.build(); }
        "text_content" => { let b = o.part_text_content(); let _ = opts; 
            b.build(); }
        "push_text" => { let a = &opts[0].1; let _ = a; o.push_text(a[0][0].clone()) }
        "push_text_content" => { let a = &opts[0].1; let _ = a; o.push_text_content() }
        _ => panic!("harness: part {f}"),
    }
}
#[allow(deprecated)]
fn part_fdate(o: &mut ValueFormatDateTime, f: &str, opts: &[(String, Vec<Vec<String>>)]) {
    match f {
        "am_pm" => { let b = o.part_am_pm(); let _ = opts; 
            b.build(); }
        "day" => { let mut b = o.part_day(); for (f, a) in opts { b = match f.as_str() {
            "long_style" => b.long_style(),
            "+long_style" => b.if_then(true, |b| b.long_style()),
            "-long_style" => b.if_then(false, |b| b.long_style()),
            "short_style" => b.short_style(),
            "+short_style" => b.if_then(true, |b| b.short_style()),
            "-short_style" => b.if_then(false, |b| b.short_style()),
            "style" => b.style(c_formatnumberstyle(&a[0])),
            "+style" => b.if_then(true, |b| b.style(c_formatnumberstyle(&a[0]))),
            "-style" => b.if_then(false, |b| b.style(c_formatnumberstyle(&a[0]))),
            "calendar" => b.calendar(c_formatcalendarstyle(&a[0])),
            "+calendar" => b.if_then(true, |b| b.calendar(c_formatcalendarstyle(&a[0]))),
            "-calendar" => b.if_then(false, |b| b.calendar(c_formatcalendarstyle(&a[0]))),
            _ => panic!("harness: option {f}") } }
            b.build(); }
        "day_of_week" => { let mut b = o.part_day_of_week(); for (f, a) in opts { b = match f.as_str() {
            "long_style" => b.long_style(),
            "+long_style" => b.if_then(true, |b| b.long_style()),
            "-long_style" => b.if_then(false, |b| b.long_style()),
            "short_style" => b.short_style(),
            "+short_style" => b.if_then(true, |b| b.short_style()),
            "-short_style" => b.if_then(false, |b| b.short_style()),
            "style" => b.style(c_formatnumberstyle(&a[0])),
            "+style" => b.if_then(true, |b| b.style(c_formatnumberstyle(&a[0]))),
            "-style" => b.if_then(false, |b| b.style(c_formatnumberstyle(&a[0]))),
            "calendar" => b.calendar(c_formatcalendarstyle(&a[0])),
            "+calendar" => b.if_then(true, |b| b.calendar(c_formatcalendarstyle(&a[0]))),
            "-calendar" => b.if_then(false, |b| b.calendar(c_formatcalendarstyle(&a[0]))),
            _ => panic!("harness: option {f}") } }
            b.build(); }
        "era" => { let mut b = o.part_era(); for (f, a) in opts { b = match f.as_str() {
            "long_style" => b.long_style(),
            "+long_style" => b.if_then(true, |b| b.long_style()),
            "-long_style" => b.if_then(false, |b| b.long_style()),
            "short_style" => b.short_style(),
            "+short_style" => b.if_then(true, |b| b.short_style()),
            "-short_style" => b.if_then(false, |b| b.short_style()),
            "style" => b.style(c_formatnumberstyle(&a[0])),
            "+style" => b.if_then(true, |b| b.style(c_formatnumberstyle(&a[0]))),
            "-style" => b.if_then(false, |b| b.style(c_formatnumberstyle(&a[0]))),
            "calendar" => b.calendar(c_formatcalendarstyle(&a[0])),
            "+calendar" => b.if_then(true, |b| b.calendar(c_formatcalendarstyle(&a[0]))),
            "-calendar" => b.if_then(false, |b| b.calendar(c_formatcalendarstyle(&a[0]))),
            _ => panic!("harness: option {f}") } }
            b.build(); }
        "fill_character" => { let mut b = o.part_fill_character(); for (f, a) in opts { b = match f.as_str() {
            "fill_char" => b.fill_char(a[0][0].parse().unwrap()),
            "+fill_char" => b.if_then(true, |b| b.fill_char(a[0][0].parse().unwrap())),
            "-fill_char" => b.if_then(false, |b| b.fill_char(a[0][0].parse().unwrap())),
            _ => panic!("harness: option {f}") } }
            b.build(); }
        "hours" => { let mut b = o.part_hours(); for (f, a) in opts { b = match f.as_str() {
            "long_style" => b.long_style(),
            "+long_style" => b.if_then(true, |b| b.long_style()),
            "-long_style" => b.if_then(false, |b| b.long_style()),
            "short_style" => b.short_style(),
            "+short_style" => b.if_then(true, |b| b.short_style()),
            "-short_style" => b.if_then(false, |b| b.short_style()),
            "style" => b.style(c_formatnumberstyle(&a[0])),
            "+style" => b.if_then(true, |b| b.style(c_formatnumberstyle(&a[0]))),
            "-style" => b.if_then(false, |b| b.style(c_formatnumberstyle(&a[0]))),
            _ => panic!("harness: option {f}") } }
            b.build(); }
        "minutes" => { let mut b = o.part_minutes(); for (f, a) in opts { b = match f.as_str() {
            "long_style" => b.long_style(),
            "+long_style" => b.if_then(true, |b| b.long_style()),
            "-long_style" => b.if_then(false, |b| b.long_style()),
            "short_style" => b.short_style(),
            "+short_style" => b.if_then(true, |b| b.short_style()),
            "-short_style" => b.if_then(false, |b| b.short_style()),
            "style" => b.style(c_formatnumberstyle(&a[0])),
            "+style" => b.if_then(true, |b| b.style(c_formatnumberstyle(&a[0]))),
            "-style" => b.if_then(false, |b| b.style(c_formatnumberstyle(&a[0]))),
            _ => panic!("harness: option {f}") } }
            b.build(); }
        "month" => { let mut b = o.part_month(); for (f, a) in opts { b = match f.as_str() {
            "long_style" => b.long_style(),
            "+long_style" => b.if_then(true, |b| b.long_style()),
            "-long_style" => b.if_then(false, |b| b.long_style()),
            "short_style" => b.short_style(),
            "+short_style" => b.if_then(true, |b| b.short_style()),
            "-short_style" => b.if_then(false, |b| b.short_style()),
            "style" => b.style(c_formatnumberstyle(&a[0])),
            "+style" => b.if_then(true, |b| b.style(c_formatnumberstyle(&a[0]))),
            "-style" => b.if_then(false, |b| b.style(c_formatnumberstyle(&a[0]))),
            "calendar" => b.calendar(c_formatcalendarstyle(&a[0])),
            "+calendar" => b.if_then(true, |b| b.calendar(c_formatcalendarstyle(&a[0]))),
            "-calendar" => b.if_then(false, |b| b.calendar(c_formatcalendarstyle(&a[0]))),
            "textual" => b.textual(),
            "+textual" => b.if_then(true, |b| b.textual()),
            "-textual" => b.if_then(false, |b| b.textual()),
            "possessive_form" => b.possessive_form(),
            "+possessive_form" => b.if_then(true, |b| b.possessive_form()),
            "-possessive_form" => b.if_then(false, |b| b.possessive_form()),
            _ => panic!("harness: option {f}") } }
            b.build(); }
        "quarter" => { let mut b = o.part_quarter(); for (f, a) in opts { b = match f.as_str() {
            "long_style" => b.long_style(),
            "+long_style" => b.if_then(true, |b| b.long_style()),
            "-long_style" => b.if_then(false, |b| b.long_style()),
            "short_style" => b.short_style(),
            "+short_style" => b.if_then(true, |b| b.short_style()),
            "-short_style" => b.if_then(false, |b| b.short_style()),
            "style" => b.style(c_formatnumberstyle(&a[0])),
            "+style" => b.if_then(true, |b| b.style(c_formatnumberstyle(&a[0]))),
            "-style" => b.if_then(false, |b| b.style(c_formatnumberstyle(&a[0]))),
            "calendar" => b.calendar(c_formatcalendarstyle(&a[0])),
            "+calendar" => b.if_then(true, |b| b.calendar(c_formatcalendarstyle(&a[0]))),
            "-calendar" => b.if_then(false, |b| b.calendar(c_formatcalendarstyle(&a[0]))),
            _ => panic!("harness: option {f}") } }
            b.build(); }
        "seconds" => { let mut b = o.part_seconds(); for (f, a) in opts { b = match f.as_str() {
            "long_style" => b.long_style(),
            "+long_style" => b.if_then(true, |b| b.long_style()),
            "-long_style" => b.if_then(false, |b| b.long_style()),
            "short_style" => b.short_style(),
            "+short_style" => b.if_then(true, |b| b.short_style()),
            "-short_style" => b.if_then(false, |b| b.short_style()),
            "style" => b.style(c_formatnumberstyle(&a[0])),
            "+style" => b.if_then(true, |b| b.style(c_formatnumberstyle(&a[0]))),
            "-style" => b.if_then(false, |b| b.style(c_formatnumberstyle(&a[0]))),
            "decimal_places" => b.decimal_places(a[0][0].parse().unwrap()),
            "+decimal_places" => b.if_then(true, |b| b.decimal_places(a[0][0].parse().unwrap())),
            "-decimal_places" => b.if_then(false, |b| b.decimal_places(a[0][0].parse().unwrap())),
            _ => panic!("harness: option {f}") } }
            b.build(); }
        "text" => { let mut b = o.part_text(""); for (f, a) in opts { b = match f.as_str() {
            "text" => b.text(a[0][0].clone()),
            "+text" => b.if_then(true, |b| b.text(a[0][0].clone())),
            "-text" => b.if_then(false, |b| b.text(a[0][0].clone())),
            _ => panic!("harness: option {f}") } }
            b.build(); }
        "week_of_year" => { let mut b = o.part_week_of_year(); for (f, a) in opts { b = match f.as_str() {
            "calendar" => b.calendar(c_formatcalendarstyle(&a[0])),
            "+calendar" => b.if_then(true, |b| b.calendar(c_formatcalendarstyle(&a[0]))),
            "-calendar" => b.if_then(false, |b| b.calendar(c_formatcalendarstyle(&a[0]))),
            _ => panic!("harness: option {f}") } }
            b.build(); }
        "year" => { let mut b = o.part_year(); for (f, a) in opts { b = match f.as_str() {
            "long_style" => b.long_style(),
            "+long_style" => b.if_then(true, |b| b.long_style()),
            "-long_style" => b.if_then(false, |b| b.long_style()),
            "short_style" => b.short_style(),
            "+short_style" => b.if_then(true, |b| b.short_style()),
            "-short_style" => b.if_then(false, |b| b.short_style()),
            "style" => b.style(c_formatnumberstyle(&a[0])),
            "+style" => b.if_then(true, |b| b.style(c_formatnumberstyle(&a[0]))),
            "-style" => b.if_then(false, |b| b.style(c_formatnumberstyle(&a[0]))),
            "calendar" => b.calendar(c_formatcalendarstyle(&a[0])),
            "+calendar" => b.if_then(true, |b| b.calendar(c_formatcalendarstyle(&a[0]))),
            "-calendar" => b.if_then(false, |b| b.calendar(c_formatcalendarstyle(&a[0]))),
            _ => panic!("harness: option {f}") } }
            b.build(); }
        "push_am_pm" => { let a = &opts[0].1; let _ = a; o.push_am_pm() }
        "push_day" => { let a = &opts[0].1; let _ = a; o.push_day(c_formatnumberstyle(&a[0])) }
        "push_day_of_week" => { let a = &opts[0].1; let _ = a; o.push_day_of_week(c_formatnumberstyle(&a[0]), c_formatcalendarstyle(&a[1])) }
        "push_era" => { let a = &opts[0].1; let _ = a; o.push_era(c_formatnumberstyle(&a[0]), c_formatcalendarstyle(&a[1])) }
        "push_hours" => { let a = &opts[0].1; let _ = a; o.push_hours(c_formatnumberstyle(&a[0])) }
        "push_minutes" => { let a = &opts[0].1; let _ = a; o.push_minutes(c_formatnumberstyle(&a[0])) }
        "push_month" => { let a = &opts[0].1; let _ = a; o.push_month(c_formatnumberstyle(&a[0]), a[1][0].parse().unwrap()) }
        "push_quarter" => { let a = &opts[0].1; let _ = a; o.push_quarter(c_formatnumberstyle(&a[0]), c_formatcalendarstyle(&a[1])) }
        "push_seconds" => { let a = &opts[0].1; let _ = a; o.push_seconds(c_formatnumberstyle(&a[0]), a[1][0].parse().unwrap()) }
        "push_text" => { let a = &opts[0].1; let _ = a; o.push_text(a[0][0].clone()) }
        "push_week_of_year" => { let a = &opts[0].1; let _ = a; o.push_week_of_year(c_formatcalendarstyle(&a[0])) }
        "push_year" => { let a = &opts[0].1; let _ = a; o.push_year(c_formatnumberstyle(&a[0])) }
        _ => panic!("harness: part {f}"),
    }
}
#[allow(deprecated)]
fn part_ftime(o: &mut ValueFormatTimeDuration, f: &str, opts: &[(String, Vec<Vec<String>>)]) {
    match f {
        "am_pm" => { let b = o.part_am_pm(); let _ = opts; 
            b.build(); }
        "fill_character" => { let mut b = o.part_fill_character(); for (f, a) in opts { b = match f.as_str() {
            "fill_char" => b.fill_char(a[0][0].parse().unwrap()),
            "+fill_char" => b.if_then(true, |b| b.fill_char(a[0][0].parse().unwrap())),
            "-fill_char" => b.if_then(false, |b| b.fill_char(a[0][0].parse().unwrap())),
            _ => panic!("harness: option {f}") } }
            b.build(); }
        "hours" => { let mut b = o.part_hours(); for (f, a) in opts { b = match f.as_str() {
            "long_style" => b.long_style(),
            "+long_style" => b.if_then(true, |b| b.long_style()),
            "-long_style" => b.if_then(false, |b| b.long_style()),
            "short_style" => b.short_style(),
            "+short_style" => b.if_then(true, |b| b.short_style()),
            "-short_style" => b.if_then(false, |b| b.short_style()),
            "style" => b.style(c_formatnumberstyle(&a[0])),
            "+style" => b.if_then(true, |b| b.style(c_formatnumberstyle(&a[0]))),
            "-style" => b.if_then(false, |b| b.style(c_formatnumberstyle(&a[0]))),
            _ => panic!("harness: option {f}") } }
            b.build(); }
        "minutes" => { let mut b = o.part_minutes(); for (f, a) in opts { b = match f.as_str() {
            "long_style" => b.long_style(),
            "+long_style" => b.if_then(true, |b| b.long_style()),
            "-long_style" => b.if_then(false, |b| b.long_style()),
            "short_style" => b.short_style(),
            "+short_style" => b.if_then(true, |b| b.short_style()),
            "-short_style" => b.if_then(false, |b| b.short_style()),
            "style" => b.style(c_formatnumberstyle(&a[0])),
            "+style" => b.if_then(true, |b| b.style(c_formatnumberstyle(&a[0]))),
            "-style" => b.if_then(false, |b| b.style(c_formatnumberstyle(&a[0]))),
            _ => panic!("harness: option {f}") } }
            b.build(); }
        "seconds" => { let mut b = o.part_seconds(); for (f, a) in opts { b = match f.as_str() {
            "long_style" => b.long_style(),
            "+long_style" => b.if_then(true, |b| b.long_style()),
            "-long_style" => b.if_then(false, |b| b.long_style()),
            "short_style" => b.short_style(),
            "+short_style" => b.if_then(true, |b| b.short_style()),
            "-short_style" => b.if_then(false, |b| b.short_style()),
            "style" => b.style(c_formatnumberstyle(&a[0])),
            "+style" => b.if_then(true, |b| b.style(c_formatnumberstyle(&a[0]))),
            "-style" => b.if_then(false, |b| b.style(c_formatnumberstyle(&a[0]))),
            "decimal_places" => b.decimal_places(a[0][0].parse().unwrap()),
            "+decimal_places" => b.if_then(true, |b| b.decimal_places(a[0][0].parse().unwrap())),
            "-decimal_places" => b.if_then(false, |b| b.decimal_places(a[0][0].parse().unwrap())),
            _ => panic!("harness: option {f}") } }
            b.build(); }
        "text" => { let mut b = o.part_text(""); for (f, a) in opts { b = match f.as_str() {
            "text" => b.text(a[0][0].clone()),
            "+text" => b.if_then(true, |b| b.text(a[0][0].clone())),
            "-text" => b.if_then(false, |b| b.text(a[0][0].clone())),
            _ => panic!("harness: option {f}") } }
            b.build(); }
        "push_am_pm" => { let a = &opts[0].1; let _ = a; o.push_am_pm() }
        "push_hours" => { let a = &opts[0].1; let _ = a; o.push_hours(c_formatnumberstyle(&a[0])) }
        "push_minutes" => { let a = &opts[0].1; let _ = a; o.push_minutes(c_formatnumberstyle(&a[0])) }
        "push_seconds" => { let a = &opts[0].1; let _ = a; o.push_seconds(c_formatnumberstyle(&a[0]), a[1][0].parse().unwrap()) }
        "push_text" => { let a = &opts[0].1; let _ = a; o.push_text(a[0][0].clone()) }
        _ => panic!("harness: part {f}"),
    }
}
fn format(k: &str, parts: &[(String, Vec<(String, Vec<Vec<String>>)>)]) -> J {
    match k {
        "fbool" => { let mut o = ValueFormatBoolean::new_named("x"); for (f, l) in parts { part_fbool(&mut o, f, l); } fm(&o) }
        "fnum" => { let mut o = ValueFormatNumber::new_named("x"); for (f, l) in parts { part_fnum(&mut o, f, l); } fm(&o) }
        "fperc" => { let mut o = ValueFormatPercentage::new_named("x"); for (f, l) in parts { part_fperc(&mut o, f, l); } fm(&o) }
        "fcurr" => { let mut o = ValueFormatCurrency::new_named("x"); for (f, l) in parts { part_fcurr(&mut o, f, l); } fm(&o) }
        "ftext" => { let mut o = ValueFormatText::new_named("x"); for (f, l) in parts { part_ftext(&mut o, f, l); } fm(&o) }
        "fdate" => { let mut o = ValueFormatDateTime::new_named("x"); for (f, l) in parts { part_fdate(&mut o, f, l); } fm(&o) }
        "ftime" => { let mut o = ValueFormatTimeDuration::new_named("x"); for (f, l) in parts { part_ftime(&mut o, f, l); } fm(&o) }
        _ => panic!("harness: kind {k}"),
    }
}
fn ready(f: &str, a: &[Vec<String>]) -> J {
    match f {
        "create_loc_boolean_format" => fm(&spreadsheet_ods::format::create_loc_boolean_format("x", c_locale(&a[0]))),
        "create_loc_number_format" => fm(&spreadsheet_ods::format::create_loc_number_format("x", c_locale(&a[0]), a[1][0].parse().unwrap(), a[2][0].parse().unwrap())),
        "create_loc_number_format_fixed" => fm(&spreadsheet_ods::format::create_loc_number_format_fixed("x", c_locale(&a[0]), a[1][0].parse().unwrap(), a[2][0].parse().unwrap())),
        "create_loc_percentage_format" => fm(&spreadsheet_ods::format::create_loc_percentage_format("x", c_locale(&a[0]), a[1][0].parse().unwrap())),
        "create_loc_currency_prefix" => fm(&spreadsheet_ods::format::create_loc_currency_prefix("x", c_locale(&a[0]), c_locale(&a[1]), a[2][0].clone())),
        "create_loc_currency_suffix" => fm(&spreadsheet_ods::format::create_loc_currency_suffix("x", c_locale(&a[0]), c_locale(&a[1]), a[2][0].clone())),
        "create_loc_date_dmy_format" => fm(&spreadsheet_ods::format::create_loc_date_dmy_format("x", c_locale(&a[0]))),
        "create_loc_date_mdy_format" => fm(&spreadsheet_ods::format::create_loc_date_mdy_format("x", c_locale(&a[0]))),
        "create_loc_datetime_format" => fm(&spreadsheet_ods::format::create_loc_datetime_format("x", c_locale(&a[0]))),
        "create_loc_time_format" => fm(&spreadsheet_ods::format::create_loc_time_format("x", c_locale(&a[0]))),
        "create_loc_time_interval_format" => fm(&spreadsheet_ods::format::create_loc_time_interval_format("x", c_locale(&a[0]))),
        "create_boolean_format" => fm(&spreadsheet_ods::format::create_boolean_format("x")),
        "create_number_format" => fm(&spreadsheet_ods::format::create_number_format("x", a[0][0].parse().unwrap(), a[1][0].parse().unwrap())),
        "create_number_format_fixed" => fm(&spreadsheet_ods::format::create_number_format_fixed("x", a[0][0].parse().unwrap(), a[1][0].parse().unwrap())),
        "create_percentage_format" => fm(&spreadsheet_ods::format::create_percentage_format("x", a[0][0].parse().unwrap())),
        "create_currency_prefix" => fm(&spreadsheet_ods::format::create_currency_prefix("x", c_locale(&a[0]), a[1][0].clone())),
        "create_currency_suffix" => fm(&spreadsheet_ods::format::create_currency_suffix("x", c_locale(&a[0]), a[1][0].clone())),
        "create_date_iso_format" => fm(&spreadsheet_ods::format::create_date_iso_format("x")),
        "create_date_dmy_format" => fm(&spreadsheet_ods::format::create_date_dmy_format("x")),
        "create_date_mdy_format" => fm(&spreadsheet_ods::format::create_date_mdy_format("x")),
        "create_datetime_format" => fm(&spreadsheet_ods::format::create_datetime_format("x")),
        "create_time_of_day_format" => fm(&spreadsheet_ods::format::create_time_of_day_format("x")),
        "create_time_interval_format" => fm(&spreadsheet_ods::format::create_time_interval_format("x")),
        _ => panic!("harness: {f}"),
    }
}
fn texttag(t: &str, ops: &[(String, String)]) -> XmlTag {
    match t {
        "TextH" => build_tag!(TextH, ops),
        "TextP" => build_tag!(TextP, ops),
        "TextSpan" => build_tag!(TextSpan, ops),
        "TextA" => build_tag!(TextA, ops),
        "TextS" => build_tag!(TextS, ops),
        "TextTab" => build_tag!(TextTab, ops),
        "SoftPageBreak" => build_tag!(SoftPageBreak, ops),
        "MetaDate" => build_tag!(MetaDate, ops),
        "MetaTime" => build_tag!(MetaTime, ops),
        "MetaPageNumber" => build_tag!(MetaPageNumber, ops),
        "MetaAuthorName" => build_tag!(MetaAuthorName, ops),
        "MetaAuthorInitials" => build_tag!(MetaAuthorInitials, ops),
        "MetaFileName" => build_tag!(MetaFileName, ops),
        "MetaSheetName" => build_tag!(MetaSheetName, ops),
        "MetaInitialCreator" => build_tag!(MetaInitialCreator, ops),
        "MetaCreationDate" => build_tag!(MetaCreationDate, ops),
        "MetaCreationTime" => build_tag!(MetaCreationTime, ops),
        "MetaDescription" => build_tag!(MetaDescription, ops),
        "MetaPrintTime" => build_tag!(MetaPrintTime, ops),
        "MetaPrintDate" => build_tag!(MetaPrintDate, ops),
        "MetaPrintedBy" => build_tag!(MetaPrintedBy, ops),
        "MetaTitle" => build_tag!(MetaTitle, ops),
        "MetaSubject" => build_tag!(MetaSubject, ops),
        "MetaKeywords" => build_tag!(MetaKeywords, ops),
        "MetaEditingCycles" => build_tag!(MetaEditingCycles, ops),
        "MetaEditingDuration" => build_tag!(MetaEditingDuration, ops),
        "MetaModificationTime" => build_tag!(MetaModificationTime, ops),
        "MetaModificationDate" => build_tag!(MetaModificationDate, ops),
        "MetaCreator" => build_tag!(MetaCreator, ops),
        "MetaPageCount" => build_tag!(MetaPageCount, ops),
        "MetaCharacterCount" => build_tag!(MetaCharacterCount, ops),
        _ => panic!("harness: {t}"),
    }
}
