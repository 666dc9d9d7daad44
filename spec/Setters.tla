------------------------------ MODULE Setters -------------------------------
(* generated by tools/mksetters.py from lib/setters.tbl and lib/words.tbl: for every typed setter of every
   style, format and drawing object the part and the attributes it sets, and the words of every enumeration
   (names and values as OpenDocument 1.3 defines them) *)
WordsOf ==
  [Border |-> [None |-> "none", Hidden |-> "hidden", Dotted |-> "dotted", Dashed |-> "dashed", Solid |-> "solid", Double |-> "double", Groove |-> "groove", Ridge |-> "ridge", Inset |-> "inset", Outset |-> "outset"],
   CellAlignVertical |-> [Top |-> "top", Middle |-> "middle", Bottom |-> "bottom", Automatic |-> "automatic"],
   CellProtect |-> [FormulaHidden |-> "formula-hidden", HiddenAndProtected |-> "hidden-and-protected", None |-> "none", Protected |-> "protected", ProtectedFormulaHidden |-> "protected formula-hidden"],
   FontFamilyGeneric |-> [Decorative |-> "decorative", Modern |-> "modern", Roman |-> "roman", Script |-> "script", Swiss |-> "swiss", System |-> "system"],
   FontPitch |-> [Variable |-> "variable", Fixed |-> "fixed"],
   FontStretch |-> [Normal |-> "normal", UltraCondensed |-> "ultra-condensed", ExtraCondensed |-> "extra-condensed", Condensed |-> "condensed", SemiCondensed |-> "semi-condensed", SemiExpanded |-> "semi-expanded", Expanded |-> "expanded", ExtraExpanded |-> "extra-expanded", UltraExpanded |-> "ultra-expanded"],
   FontStyle |-> [Normal |-> "normal", Italic |-> "italic", Oblique |-> "oblique"],
   FontVariant |-> [Normal |-> "normal", SmallCaps |-> "small-caps"],
   FontWeight |-> [Normal |-> "normal", Bold |-> "bold", W100 |-> "100", W200 |-> "200", W300 |-> "300", W400 |-> "400", W500 |-> "500", W600 |-> "600", W700 |-> "700", W800 |-> "800", W900 |-> "900"],
   FormatSource |-> [Fixed |-> "fixed", Language |-> "language"],
   GlyphOrientation |-> [Auto |-> "auto", Zero |-> "0"],
   Hyphenation |-> [Auto |-> "auto", Page |-> "page"],
   HyphenationLadderCount |-> [NoLimit |-> "no-limit"],
   LetterSpacing |-> [Normal |-> "normal"],
   LineBreak |-> [Normal |-> "normal", Strict |-> "strict"],
   LineHeight |-> [Normal |-> "normal"],
   LineMode |-> [Continuous |-> "continuous", SkipWhiteSpace |-> "skip-white-space"],
   LineStyle |-> [Dash |-> "dash", DotDash |-> "dot-dash", DotDotDash |-> "dot-dot-dash", Dotted |-> "dotted", LongDash |-> "long-dash", None |-> "none", Solid |-> "solid", Wave |-> "wave"],
   LineType |-> [None |-> "none", Single |-> "single", Double |-> "double"],
   LineWidth |-> [Auto |-> "auto", Bold |-> "bold", Normal |-> "normal", Dash |-> "dash", Thin |-> "thin", Medium |-> "medium", Thick |-> "thick"],
   MasterPageUsage |-> [All |-> "all", Left |-> "left", Mirrored |-> "mirrored", Right |-> "right"],
   PageBreak |-> [Auto |-> "auto", Column |-> "column", Page |-> "page"],
   PageNumber |-> [Auto |-> "auto"],
   ParaAlignVertical |-> [Top |-> "top", Middle |-> "middle", Bottom |-> "bottom", Auto |-> "auto", Baseline |-> "baseline"],
   PrintCentering |-> [None |-> "none", Horizontal |-> "horizontal", Vertical |-> "vertical", Both |-> "both"],
   PrintContent |-> [Headers |-> "headers", Grid |-> "grid", Annotations |-> "annotations", Objects |-> "objects", Charts |-> "charts", Drawings |-> "drawings", Formulas |-> "formulas", ZeroValues |-> "zero-values"],
   PrintOrder |-> [Ltr |-> "ltr", Ttb |-> "ttb"],
   PrintOrientation |-> [Landscape |-> "landscape", Portrait |-> "portrait"],
   PunctuationWrap |-> [Hanging |-> "hanging", Simple |-> "simple"],
   RelativeScale |-> [Scale |-> "scale", ScaleMin |-> "scale-min"],
   RotationAlign |-> [None |-> "none", Bottom |-> "bottom", Top |-> "top", Center |-> "center"],
   RotationScale |-> [Fixed |-> "fixed", LineHeight |-> "line-height"],
   StyleNumFormat |-> [None |-> "", Number |-> "1", LowerAlpha |-> "a", Alpha |-> "A", LowerRoman |-> "i", Roman |-> "I"],
   TabStopType |-> [Center |-> "center", Left |-> "left", Right |-> "right", Char |-> "char"],
   TableAlign |-> [Center |-> "center", Left |-> "left", Right |-> "right", Margins |-> "margins"],
   TableBorderModel |-> [Collapsing |-> "collapsing", Separating |-> "separating"],
   TextAlign |-> [Start |-> "start", Center |-> "center", End |-> "end", Justify |-> "justify", Inside |-> "inside", Outside |-> "outside", Left |-> "left", Right |-> "right"],
   TextAlignLast |-> [Start |-> "start", Center |-> "center", Justify |-> "justify"],
   TextAlignSource |-> [Fix |-> "fix", ValueType |-> "value-type"],
   TextAutoSpace |-> [IdeographAlpha |-> "ideograph-alpha", None |-> "none"],
   TextCombine |-> [None |-> "none", Letters |-> "letters", Lines |-> "lines"],
   TextCondition |-> [None |-> "none"],
   TextDisplay |-> [None |-> "none", Condition |-> "condition", True |-> "true"],
   TextEmphasize |-> [None |-> "none", Accent |-> "accent", Circle |-> "circle", Disc |-> "disc", Dot |-> "dot"],
   TextEmphasizePosition |-> [Above |-> "above", Below |-> "below"],
   TextKeep |-> [Auto |-> "auto", Always |-> "always"],
   TextPosition |-> [Sub |-> "sub", Super |-> "super"],
   TextRelief |-> [None |-> "none", Embossed |-> "embossed", Engraved |-> "engraved"],
   TextTransform |-> [None |-> "none", Lowercase |-> "lowercase", Uppercase |-> "uppercase", Capitalize |-> "capitalize"],
   TransliterationStyle |-> [Short |-> "short", Medium |-> "medium", Long |-> "long"],
   WrapOption |-> [NoWrap |-> "no-wrap", Wrap |-> "wrap"],
   WritingDirection |-> [Ltr |-> "ltr", Ttb |-> "ttb"],
   WritingMode |-> [LrTb |-> "lr-tb", RlTb |-> "rl-tb", TbRl |-> "tb-rl", TbLr |-> "tb-lr", Lr |-> "lr", Rl |-> "rl", Tb |-> "tb", Page |-> "page"],
   XLinkActuate |-> [OnLoad |-> "onLoad", OnRequest |-> "onRequest"],
   XLinkShow |-> [New |-> "new", Replace |-> "replace"],
   XLinkType |-> [Simple |-> "simple", Extended |-> "extended", Locator |-> "locator", Arc |-> "arc", Resource |-> "resource", Title |-> "title", None |-> "none"],
   FormatNumberStyle |-> [Short |-> "short", Long |-> "long"],
   FormatCalendarStyle |-> [Gregorian |-> "gregorian", Gengou |-> "gengou", Roc |-> "ROC", Hanja |-> "hanja", Hijri |-> "hijri", Jewish |-> "jewish", Buddhist |-> "buddhist"]]
\* setter -> <<part, pattern, argument types, attributes>>
Rows_cell ==
  [set_auto_update |-> <<"attr", "one", <<"bool">>, <<"style:auto-update">>>>,
   set_class |-> <<"attr", "one", <<"str">>, <<"style:class">>>>,
   set_display_name |-> <<"attr", "one", <<"str">>, <<"style:display-name">>>>,
   set_parent_style |-> <<"attr", "one", <<"CellStyleRef">>, <<"style:parent-style-name">>>>,
   set_background_color |-> <<"cellstyle", "one", <<"Rgb">>, <<"fo:background-color">>>>,
   set_border |-> <<"cellstyle", "border", <<"Length", "Border", "Rgb">>, <<"fo:border">>>>,
   set_border_bottom |-> <<"cellstyle", "border", <<"Length", "Border", "Rgb">>, <<"fo:border-bottom">>>>,
   set_border_left |-> <<"cellstyle", "border", <<"Length", "Border", "Rgb">>, <<"fo:border-left">>>>,
   set_border_right |-> <<"cellstyle", "border", <<"Length", "Border", "Rgb">>, <<"fo:border-right">>>>,
   set_border_top |-> <<"cellstyle", "border", <<"Length", "Border", "Rgb">>, <<"fo:border-top">>>>,
   set_padding |-> <<"cellstyle", "one", <<"Length">>, <<"fo:padding">>>>,
   set_padding_bottom |-> <<"cellstyle", "one", <<"Length">>, <<"fo:padding-bottom">>>>,
   set_padding_left |-> <<"cellstyle", "one", <<"Length">>, <<"fo:padding-left">>>>,
   set_padding_right |-> <<"cellstyle", "one", <<"Length">>, <<"fo:padding-right">>>>,
   set_padding_top |-> <<"cellstyle", "one", <<"Length">>, <<"fo:padding-top">>>>,
   set_wrap_option |-> <<"cellstyle", "one", <<"WrapOption">>, <<"fo:wrap-option">>>>,
   set_border_line_width |-> <<"cellstyle", "widths", <<"Length", "Length", "Length">>, <<"style:border-line-width">>>>,
   set_border_line_width_bottom |-> <<"cellstyle", "widths", <<"Length", "Length", "Length">>, <<"style:border-line-width-bottom">>>>,
   set_border_line_width_left |-> <<"cellstyle", "widths", <<"Length", "Length", "Length">>, <<"style:border-line-width-left">>>>,
   set_border_line_width_right |-> <<"cellstyle", "widths", <<"Length", "Length", "Length">>, <<"style:border-line-width-right">>>>,
   set_border_line_width_top |-> <<"cellstyle", "widths", <<"Length", "Length", "Length">>, <<"style:border-line-width-top">>>>,
   set_cell_protect |-> <<"cellstyle", "one", <<"CellProtect">>, <<"style:cell-protect">>>>,
   set_decimal_places |-> <<"cellstyle", "one", <<"u8">>, <<"style:decimal-places">>>>,
   set_diagonal_bl_tr |-> <<"cellstyle", "border", <<"Length", "Border", "Rgb">>, <<"style:diagonal-bl-tr">>>>,
   set_diagonal_bl_tr_widths |-> <<"cellstyle", "widths", <<"Length", "Length", "Length">>, <<"style:diagonal-bl-tr-widths">>>>,
   set_diagonal_tl_br |-> <<"cellstyle", "border", <<"Length", "Border", "Rgb">>, <<"style:diagonal-tl-br">>>>,
   set_diagonal_tl_br_widths |-> <<"cellstyle", "widths", <<"Length", "Length", "Length">>, <<"style:diagonal-tl-br-widths">>>>,
   set_direction |-> <<"cellstyle", "one", <<"WritingDirection">>, <<"style:direction">>>>,
   set_glyph_orientation_vertical |-> <<"cellstyle", "one", <<"GlyphOrientation">>, <<"style:glyph-orientation-vertical">>>>,
   set_print_content |-> <<"cellstyle", "one", <<"bool">>, <<"style:print-content">>>>,
   set_repeat_content |-> <<"cellstyle", "one", <<"bool">>, <<"style:repeat-content">>>>,
   set_rotation_align |-> <<"cellstyle", "one", <<"RotationAlign">>, <<"style:rotation-align">>>>,
   set_rotation_angle |-> <<"cellstyle", "one", <<"Angle">>, <<"style:rotation-angle">>>>,
   set_shadow |-> <<"cellstyle", "shadow", <<"Length", "Length", "?Length", "Rgb">>, <<"style:shadow">>>>,
   set_shrink_to_fit |-> <<"cellstyle", "one", <<"bool">>, <<"style:shrink-to-fit">>>>,
   set_text_align_source |-> <<"cellstyle", "one", <<"TextAlignSource">>, <<"style:text-align-source">>>>,
   set_vertical_align |-> <<"cellstyle", "one", <<"CellAlignVertical">>, <<"style:vertical-align">>>>,
   set_writing_mode |-> <<"cellstyle", "one", <<"WritingMode">>, <<"style:writing-mode">>>>,
   set_break_before |-> <<"paragraphstyle", "one", <<"PageBreak">>, <<"fo:break-before">>>>,
   set_break_after |-> <<"paragraphstyle", "one", <<"PageBreak">>, <<"fo:break-after">>>>,
   set_hyphenation_keep |-> <<"paragraphstyle", "one", <<"Hyphenation">>, <<"fo:hyphenation-keep">>>>,
   set_hyphenation_ladder_count |-> <<"paragraphstyle", "one", <<"HyphenationLadderCount">>, <<"fo:hyphenation-ladder-count">>>>,
   set_keep_together |-> <<"paragraphstyle", "one", <<"TextKeep">>, <<"fo:keep-together">>>>,
   set_keep_with_next |-> <<"paragraphstyle", "one", <<"TextKeep">>, <<"fo:keep-with-next">>>>,
   set_line_height |-> <<"paragraphstyle", "one", <<"LineHeight">>, <<"fo:line-height">>>>,
   set_margin |-> <<"paragraphstyle", "one", <<"Margin">>, <<"fo:margin">>>>,
   set_margin_bottom |-> <<"paragraphstyle", "one", <<"Margin">>, <<"fo:margin-bottom">>>>,
   set_margin_left |-> <<"paragraphstyle", "one", <<"Margin">>, <<"fo:margin-left">>>>,
   set_margin_right |-> <<"paragraphstyle", "one", <<"Margin">>, <<"fo:margin-right">>>>,
   set_margin_top |-> <<"paragraphstyle", "one", <<"Margin">>, <<"fo:margin-top">>>>,
   set_orphans |-> <<"paragraphstyle", "one", <<"u32">>, <<"fo:orphans">>>>,
   set_text_align |-> <<"paragraphstyle", "one", <<"TextAlign">>, <<"fo:text-align">>>>,
   set_text_align_last |-> <<"paragraphstyle", "one", <<"TextAlignLast">>, <<"fo:text-align-last">>>>,
   set_text_indent |-> <<"paragraphstyle", "one", <<"Indent">>, <<"fo:text-indent">>>>,
   set_widows |-> <<"paragraphstyle", "one", <<"u32">>, <<"fo:widows">>>>,
   set_auto_text_indent |-> <<"paragraphstyle", "one", <<"bool">>, <<"style:auto-text-indent">>>>,
   set_background_transpareny |-> <<"paragraphstyle", "one", <<"Percent">>, <<"style:background-transparency">>>>,
   set_contextual_spacing |-> <<"paragraphstyle", "one", <<"bool">>, <<"style:contextual-spacing">>>>,
   set_font_independent_line_spacing |-> <<"paragraphstyle", "one", <<"bool">>, <<"style:font-independent-line-spacing">>>>,
   set_join_border |-> <<"paragraphstyle", "one", <<"bool">>, <<"style:join-border">>>>,
   set_justify_single_word |-> <<"paragraphstyle", "one", <<"bool">>, <<"style:justify-single-word">>>>,
   set_line_break |-> <<"paragraphstyle", "one", <<"LineBreak">>, <<"style:line-break">>>>,
   set_line_height_at_least |-> <<"paragraphstyle", "one", <<"Length">>, <<"style:line-height-at-least">>>>,
   set_line_spacing |-> <<"paragraphstyle", "one", <<"Length">>, <<"style:line-spacing">>>>,
   set_page_number |-> <<"paragraphstyle", "one", <<"PageNumber">>, <<"style:page-number">>>>,
   set_punctuation_wrap |-> <<"paragraphstyle", "one", <<"PunctuationWrap">>, <<"style:punctuation-wrap">>>>,
   set_register_true |-> <<"paragraphstyle", "one", <<"bool">>, <<"style:register-true">>>>,
   set_snap_to_layout_grid |-> <<"paragraphstyle", "one", <<"bool">>, <<"style:snap-to-layout-grid">>>>,
   set_tab_stop_distance |-> <<"paragraphstyle", "one", <<"Length">>, <<"style:tab-stop-distance">>>>,
   set_text_autospace |-> <<"paragraphstyle", "one", <<"TextAutoSpace">>, <<"style:text-autospace">>>>,
   set_vertical_align_para |-> <<"paragraphstyle", "one", <<"ParaAlignVertical">>, <<"style:vertical-align">>>>,
   set_writing_mode_automatic |-> <<"paragraphstyle", "one", <<"bool">>, <<"style:writing-mode-automatic">>>>,
   set_line_number |-> <<"paragraphstyle", "one", <<"u32">>, <<"text:line-number">>>>,
   set_number_lines |-> <<"paragraphstyle", "one", <<"bool">>, <<"text:number-lines">>>>,
   set_color |-> <<"textstyle", "one", <<"Rgb">>, <<"fo:color">>>>,
   set_locale |-> <<"textstyle", "locale", <<"Locale">>, <<"fo:language", "fo:country", "fo:script">>>>,
   set_font_name |-> <<"textstyle", "one", <<"str">>, <<"style:font-name">>>>,
   set_font_size |-> <<"textstyle", "one", <<"FontSize">>, <<"fo:font-size">>>>,
   set_font_size_rel |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-rel">>>>,
   set_font_style |-> <<"textstyle", "one", <<"FontStyle">>, <<"fo:font-style">>>>,
   set_font_italic |-> <<"textstyle", "italic", <<>>, <<"fo:font-style">>>>,
   set_font_weight |-> <<"textstyle", "one", <<"FontWeight">>, <<"fo:font-weight">>>>,
   set_font_bold |-> <<"textstyle", "bold", <<>>, <<"fo:font-weight">>>>,
   set_font_variant |-> <<"textstyle", "one", <<"FontVariant">>, <<"fo:font-variant">>>>,
   set_font_attr |-> <<"textstyle", "fontattr", <<"FontSize", "bool", "bool">>, <<"fo:font-size", "fo:font-weight", "fo:font-style">>>>,
   set_locale_asian |-> <<"textstyle", "locale", <<"Locale">>, <<"style:language-asian", "style:country-asian", "style:script-asian">>>>,
   set_font_name_asian |-> <<"textstyle", "one", <<"str">>, <<"style:font-name-asian">>>>,
   set_font_size_asian |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-asian">>>>,
   set_font_size_rel_asian |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-rel-asian">>>>,
   set_font_style_asian |-> <<"textstyle", "one", <<"FontStyle">>, <<"style:font-style-asian">>>>,
   set_font_italic_asian |-> <<"textstyle", "italic", <<>>, <<"style:font-style-asian">>>>,
   set_font_weight_asian |-> <<"textstyle", "one", <<"FontWeight">>, <<"style:font-weight-asian">>>>,
   set_font_bold_asian |-> <<"textstyle", "bold", <<>>, <<"style:font-weight-asian">>>>,
   set_font_attr_asian |-> <<"textstyle", "fontattr", <<"FontSize", "bool", "bool">>, <<"style:font-size-asian", "style:font-weight-asian", "style:font-style-asian">>>>,
   set_locale_complex |-> <<"textstyle", "locale", <<"Locale">>, <<"style:language-complex", "style:country-complex", "style:script-complex">>>>,
   set_font_name_complex |-> <<"textstyle", "one", <<"str">>, <<"style:font-name-complex">>>>,
   set_font_size_complex |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-complex">>>>,
   set_font_size_rel_complex |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-rel-complex">>>>,
   set_font_style_complex |-> <<"textstyle", "one", <<"FontStyle">>, <<"style:font-style-complex">>>>,
   set_font_italic_complex |-> <<"textstyle", "italic", <<>>, <<"style:font-style-complex">>>>,
   set_font_weight_complex |-> <<"textstyle", "one", <<"FontWeight">>, <<"style:font-weight-complex">>>>,
   set_font_bold_complex |-> <<"textstyle", "bold", <<>>, <<"style:font-weight-complex">>>>,
   set_font_attr_complex |-> <<"textstyle", "fontattr", <<"FontSize", "bool", "bool">>, <<"style:font-size-complex", "style:font-weight-complex", "style:font-style-complex">>>>,
   set_hyphenate |-> <<"textstyle", "one", <<"bool">>, <<"fo:hyphenate">>>>,
   set_hyphenation_push_char_count |-> <<"textstyle", "one", <<"u32">>, <<"fo:hyphenation-push-char-count">>>>,
   set_hyphenation_remain_char_count |-> <<"textstyle", "one", <<"u32">>, <<"fo:hyphenation-remain-char-count">>>>,
   set_letter_spacing |-> <<"textstyle", "one", <<"LetterSpacing">>, <<"fo:letter-spacing">>>>,
   set_text_shadow |-> <<"textstyle", "shadow", <<"Length", "Length", "?Length", "Rgb">>, <<"fo:text-shadow">>>>,
   set_text_transform |-> <<"textstyle", "one", <<"TextTransform">>, <<"fo:text-transform">>>>,
   set_font_relief |-> <<"textstyle", "one", <<"TextRelief">>, <<"style:font-relief">>>>,
   set_text_position |-> <<"textstyle", "pos", <<"TextPosition", "?Percent">>, <<"style:text-position">>>>,
   set_letter_kerning |-> <<"textstyle", "one", <<"bool">>, <<"style:letter-kerning">>>>,
   set_text_combine |-> <<"textstyle", "one", <<"TextCombine">>, <<"style:text-combine">>>>,
   set_text_combine_start_char |-> <<"textstyle", "one", <<"char">>, <<"style:text-combine-start-char">>>>,
   set_text_combine_end_char |-> <<"textstyle", "one", <<"char">>, <<"style:text-combine-end-char">>>>,
   set_text_emphasize |-> <<"textstyle", "emph", <<"TextEmphasize", "TextEmphasizePosition">>, <<"style:text-emphasize">>>>,
   set_text_line_through_color |-> <<"textstyle", "one", <<"Rgb">>, <<"style:text-line-through-color">>>>,
   set_text_line_through_mode |-> <<"textstyle", "one", <<"LineMode">>, <<"style:text-line-through-mode">>>>,
   set_text_line_through_style |-> <<"textstyle", "one", <<"LineStyle">>, <<"style:text-line-through-style">>>>,
   set_text_line_through_text |-> <<"textstyle", "one", <<"str">>, <<"style:text-line-through-text">>>>,
   set_text_line_through_text_style |-> <<"textstyle", "one", <<"TextStyleRef">>, <<"style:text-line-through-text-style">>>>,
   set_text_line_through_type |-> <<"textstyle", "one", <<"LineType">>, <<"style:text-line-through-type">>>>,
   set_text_line_through_width |-> <<"textstyle", "one", <<"LineWidth">>, <<"style:text-line-through-width">>>>,
   set_font_text_outline |-> <<"textstyle", "one", <<"bool">>, <<"style:text-outline">>>>,
   set_text_overline_color |-> <<"textstyle", "one", <<"Rgb">>, <<"style:text-overline-color">>>>,
   set_text_overline_mode |-> <<"textstyle", "one", <<"LineMode">>, <<"style:text-overline-mode">>>>,
   set_text_overline_style |-> <<"textstyle", "one", <<"LineStyle">>, <<"style:text-overline-style">>>>,
   set_text_overline_type |-> <<"textstyle", "one", <<"LineType">>, <<"style:text-overline-type">>>>,
   set_text_overline_width |-> <<"textstyle", "one", <<"LineWidth">>, <<"style:text-overline-width">>>>,
   set_text_underline_color |-> <<"textstyle", "one", <<"Rgb">>, <<"style:text-underline-color">>>>,
   set_text_underline_mode |-> <<"textstyle", "one", <<"LineMode">>, <<"style:text-underline-mode">>>>,
   set_text_underline_style |-> <<"textstyle", "one", <<"LineStyle">>, <<"style:text-underline-style">>>>,
   set_text_underline_type |-> <<"textstyle", "one", <<"LineType">>, <<"style:text-underline-type">>>>,
   set_text_underline_width |-> <<"textstyle", "one", <<"LineWidth">>, <<"style:text-underline-width">>>>,
   set_use_window_font_color |-> <<"textstyle", "one", <<"bool">>, <<"style:use-window-font-color">>>>,
   set_text_condition |-> <<"textstyle", "one", <<"TextCondition">>, <<"text:condition">>>>,
   set_display |-> <<"textstyle", "one", <<"TextDisplay">>, <<"text:display">>>>]
Rows_col ==
  [set_auto_update |-> <<"attr", "one", <<"bool">>, <<"style:auto-update">>>>,
   set_class |-> <<"attr", "one", <<"str">>, <<"style:class">>>>,
   set_display_name |-> <<"attr", "one", <<"str">>, <<"style:display-name">>>>,
   set_parent_style |-> <<"attr", "one", <<"ColStyleRef">>, <<"style:parent-style-name">>>>,
   set_break_before |-> <<"colstyle", "one", <<"PageBreak">>, <<"fo:break-before">>>>,
   set_break_after |-> <<"colstyle", "one", <<"PageBreak">>, <<"fo:break-after">>>>,
   set_col_width |-> <<"colstyle", "orclear", <<"Length">>, <<"style:column-width">>>>,
   set_rel_col_width |-> <<"colstyle", "rel", <<"f64">>, <<"style:rel-column-width">>>>,
   set_use_optimal_col_width |-> <<"colstyle", "one", <<"bool">>, <<"style:use-optimal-column-width">>>>]
Rows_row ==
  [set_auto_update |-> <<"attr", "one", <<"bool">>, <<"style:auto-update">>>>,
   set_class |-> <<"attr", "one", <<"str">>, <<"style:class">>>>,
   set_display_name |-> <<"attr", "one", <<"str">>, <<"style:display-name">>>>,
   set_parent_style |-> <<"attr", "one", <<"RowStyleRef">>, <<"style:parent-style-name">>>>,
   set_background_color |-> <<"rowstyle", "one", <<"Rgb">>, <<"fo:background-color">>>>,
   set_break_before |-> <<"rowstyle", "one", <<"PageBreak">>, <<"fo:break-before">>>>,
   set_break_after |-> <<"rowstyle", "one", <<"PageBreak">>, <<"fo:break-after">>>>,
   set_keep_together |-> <<"rowstyle", "one", <<"TextKeep">>, <<"fo:keep-together">>>>,
   set_min_row_height |-> <<"rowstyle", "one", <<"Length">>, <<"style:min-row-height">>>>,
   set_row_height |-> <<"rowstyle", "orclear", <<"Length">>, <<"style:row-height">>>>,
   set_use_optimal_row_height |-> <<"rowstyle", "one", <<"bool">>, <<"style:use-optimal-row-height">>>>]
Rows_table ==
  [set_auto_update |-> <<"attr", "one", <<"bool">>, <<"style:auto-update">>>>,
   set_class |-> <<"attr", "one", <<"str">>, <<"style:class">>>>,
   set_display_name |-> <<"attr", "one", <<"str">>, <<"style:display-name">>>>,
   set_parent_style |-> <<"attr", "one", <<"TableStyleRef">>, <<"style:parent-style-name">>>>,
   set_master_page |-> <<"attr", "one", <<"MasterPageRef">>, <<"style:master-page-name">>>>,
   set_background_color |-> <<"tablestyle", "one", <<"Rgb">>, <<"fo:background-color">>>>,
   set_break_before |-> <<"tablestyle", "one", <<"PageBreak">>, <<"fo:break-before">>>>,
   set_break_after |-> <<"tablestyle", "one", <<"PageBreak">>, <<"fo:break-after">>>>,
   set_keep_with_next |-> <<"tablestyle", "one", <<"TextKeep">>, <<"fo:keep-with-next">>>>,
   set_margin |-> <<"tablestyle", "one", <<"Margin">>, <<"fo:margin">>>>,
   set_margin_bottom |-> <<"tablestyle", "one", <<"Margin">>, <<"fo:margin-bottom">>>>,
   set_margin_left |-> <<"tablestyle", "one", <<"Margin">>, <<"fo:margin-left">>>>,
   set_margin_right |-> <<"tablestyle", "one", <<"Margin">>, <<"fo:margin-right">>>>,
   set_margin_top |-> <<"tablestyle", "one", <<"Margin">>, <<"fo:margin-top">>>>,
   set_may_break_between_rows |-> <<"tablestyle", "one", <<"bool">>, <<"style:may-break-between-rows">>>>,
   set_page_number |-> <<"tablestyle", "one", <<"PageNumber">>, <<"style:page-number">>>>,
   set_rel_width |-> <<"tablestyle", "one", <<"RelativeScale">>, <<"style:rel-width">>>>,
   set_width |-> <<"tablestyle", "one", <<"Length">>, <<"style:width">>>>,
   set_shadow |-> <<"tablestyle", "shadow", <<"Length", "Length", "?Length", "Rgb">>, <<"style:shadow">>>>,
   set_writing_mode |-> <<"tablestyle", "one", <<"WritingMode">>, <<"style:writing-mode">>>>,
   set_align |-> <<"tablestyle", "one", <<"TableAlign">>, <<"table:align">>>>,
   set_border_model |-> <<"tablestyle", "one", <<"TableBorderModel">>, <<"table:border-model">>>>,
   set_display |-> <<"tablestyle", "one", <<"bool">>, <<"table:display">>>>,
   set_tab_color |-> <<"tablestyle", "one", <<"Rgb">>, <<"table:tab-color">>>>]
Rows_para ==
  [set_auto_update |-> <<"attr", "one", <<"bool">>, <<"style:auto-update">>>>,
   set_class |-> <<"attr", "one", <<"str">>, <<"style:class">>>>,
   set_display_name |-> <<"attr", "one", <<"str">>, <<"style:display-name">>>>,
   set_parent_style |-> <<"attr", "one", <<"ParagraphStyleRef">>, <<"style:parent-style-name">>>>,
   set_default_outline_level |-> <<"attr", "one", <<"u32">>, <<"style:default-outline-level">>>>,
   set_master_page |-> <<"attr", "one", <<"MasterPageRef">>, <<"style:master-page-name">>>>,
   set_next_style |-> <<"attr", "one", <<"ParagraphStyleRef">>, <<"style:next-style-name">>>>,
   set_background_color |-> <<"paragraphstyle", "one", <<"Rgb">>, <<"fo:background-color">>>>,
   set_border |-> <<"paragraphstyle", "border", <<"Length", "Border", "Rgb">>, <<"fo:border">>>>,
   set_border_bottom |-> <<"paragraphstyle", "border", <<"Length", "Border", "Rgb">>, <<"fo:border-bottom">>>>,
   set_border_left |-> <<"paragraphstyle", "border", <<"Length", "Border", "Rgb">>, <<"fo:border-left">>>>,
   set_border_right |-> <<"paragraphstyle", "border", <<"Length", "Border", "Rgb">>, <<"fo:border-right">>>>,
   set_border_top |-> <<"paragraphstyle", "border", <<"Length", "Border", "Rgb">>, <<"fo:border-top">>>>,
   set_break_before |-> <<"paragraphstyle", "one", <<"PageBreak">>, <<"fo:break-before">>>>,
   set_break_after |-> <<"paragraphstyle", "one", <<"PageBreak">>, <<"fo:break-after">>>>,
   set_hyphenation_keep |-> <<"paragraphstyle", "one", <<"Hyphenation">>, <<"fo:hyphenation-keep">>>>,
   set_hyphenation_ladder_count |-> <<"paragraphstyle", "one", <<"HyphenationLadderCount">>, <<"fo:hyphenation-ladder-count">>>>,
   set_keep_together |-> <<"paragraphstyle", "one", <<"TextKeep">>, <<"fo:keep-together">>>>,
   set_keep_with_next |-> <<"paragraphstyle", "one", <<"TextKeep">>, <<"fo:keep-with-next">>>>,
   set_line_height |-> <<"paragraphstyle", "one", <<"LineHeight">>, <<"fo:line-height">>>>,
   set_margin |-> <<"paragraphstyle", "one", <<"Margin">>, <<"fo:margin">>>>,
   set_margin_bottom |-> <<"paragraphstyle", "one", <<"Margin">>, <<"fo:margin-bottom">>>>,
   set_margin_left |-> <<"paragraphstyle", "one", <<"Margin">>, <<"fo:margin-left">>>>,
   set_margin_right |-> <<"paragraphstyle", "one", <<"Margin">>, <<"fo:margin-right">>>>,
   set_margin_top |-> <<"paragraphstyle", "one", <<"Margin">>, <<"fo:margin-top">>>>,
   set_orphans |-> <<"paragraphstyle", "one", <<"u32">>, <<"fo:orphans">>>>,
   set_padding |-> <<"paragraphstyle", "one", <<"Length">>, <<"fo:padding">>>>,
   set_padding_bottom |-> <<"paragraphstyle", "one", <<"Length">>, <<"fo:padding-bottom">>>>,
   set_padding_left |-> <<"paragraphstyle", "one", <<"Length">>, <<"fo:padding-left">>>>,
   set_padding_right |-> <<"paragraphstyle", "one", <<"Length">>, <<"fo:padding-right">>>>,
   set_padding_top |-> <<"paragraphstyle", "one", <<"Length">>, <<"fo:padding-top">>>>,
   set_text_align |-> <<"paragraphstyle", "one", <<"TextAlign">>, <<"fo:text-align">>>>,
   set_text_align_last |-> <<"paragraphstyle", "one", <<"TextAlignLast">>, <<"fo:text-align-last">>>>,
   set_text_indent |-> <<"paragraphstyle", "one", <<"Indent">>, <<"fo:text-indent">>>>,
   set_widows |-> <<"paragraphstyle", "one", <<"u32">>, <<"fo:widows">>>>,
   set_auto_text_indent |-> <<"paragraphstyle", "one", <<"bool">>, <<"style:auto-text-indent">>>>,
   set_background_transpareny |-> <<"paragraphstyle", "one", <<"Percent">>, <<"style:background-transparency">>>>,
   set_border_line_width |-> <<"paragraphstyle", "widths", <<"Length", "Length", "Length">>, <<"style:border-line-width">>>>,
   set_border_line_width_bottom |-> <<"paragraphstyle", "widths", <<"Length", "Length", "Length">>, <<"style:border-line-width-bottom">>>>,
   set_border_line_width_left |-> <<"paragraphstyle", "widths", <<"Length", "Length", "Length">>, <<"style:border-line-width-left">>>>,
   set_border_line_width_right |-> <<"paragraphstyle", "widths", <<"Length", "Length", "Length">>, <<"style:border-line-width-right">>>>,
   set_border_line_width_top |-> <<"paragraphstyle", "widths", <<"Length", "Length", "Length">>, <<"style:border-line-width-top">>>>,
   set_contextual_spacing |-> <<"paragraphstyle", "one", <<"bool">>, <<"style:contextual-spacing">>>>,
   set_font_independent_line_spacing |-> <<"paragraphstyle", "one", <<"bool">>, <<"style:font-independent-line-spacing">>>>,
   set_join_border |-> <<"paragraphstyle", "one", <<"bool">>, <<"style:join-border">>>>,
   set_justify_single_word |-> <<"paragraphstyle", "one", <<"bool">>, <<"style:justify-single-word">>>>,
   set_line_break |-> <<"paragraphstyle", "one", <<"LineBreak">>, <<"style:line-break">>>>,
   set_line_height_at_least |-> <<"paragraphstyle", "one", <<"Length">>, <<"style:line-height-at-least">>>>,
   set_line_spacing |-> <<"paragraphstyle", "one", <<"Length">>, <<"style:line-spacing">>>>,
   set_page_number |-> <<"paragraphstyle", "one", <<"PageNumber">>, <<"style:page-number">>>>,
   set_punctuation_wrap |-> <<"paragraphstyle", "one", <<"PunctuationWrap">>, <<"style:punctuation-wrap">>>>,
   set_register_true |-> <<"paragraphstyle", "one", <<"bool">>, <<"style:register-true">>>>,
   set_shadow |-> <<"paragraphstyle", "shadow", <<"Length", "Length", "?Length", "Rgb">>, <<"style:shadow">>>>,
   set_snap_to_layout_grid |-> <<"paragraphstyle", "one", <<"bool">>, <<"style:snap-to-layout-grid">>>>,
   set_tab_stop_distance |-> <<"paragraphstyle", "one", <<"Length">>, <<"style:tab-stop-distance">>>>,
   set_text_autospace |-> <<"paragraphstyle", "one", <<"TextAutoSpace">>, <<"style:text-autospace">>>>,
   set_vertical_align_para |-> <<"paragraphstyle", "one", <<"ParaAlignVertical">>, <<"style:vertical-align">>>>,
   set_writing_mode |-> <<"paragraphstyle", "one", <<"WritingMode">>, <<"style:writing-mode">>>>,
   set_writing_mode_automatic |-> <<"paragraphstyle", "one", <<"bool">>, <<"style:writing-mode-automatic">>>>,
   set_line_number |-> <<"paragraphstyle", "one", <<"u32">>, <<"text:line-number">>>>,
   set_number_lines |-> <<"paragraphstyle", "one", <<"bool">>, <<"text:number-lines">>>>,
   set_color |-> <<"textstyle", "one", <<"Rgb">>, <<"fo:color">>>>,
   set_locale |-> <<"textstyle", "locale", <<"Locale">>, <<"fo:language", "fo:country", "fo:script">>>>,
   set_font_name |-> <<"textstyle", "one", <<"str">>, <<"style:font-name">>>>,
   set_font_size |-> <<"textstyle", "one", <<"FontSize">>, <<"fo:font-size">>>>,
   set_font_size_rel |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-rel">>>>,
   set_font_style |-> <<"textstyle", "one", <<"FontStyle">>, <<"fo:font-style">>>>,
   set_font_italic |-> <<"textstyle", "italic", <<>>, <<"fo:font-style">>>>,
   set_font_weight |-> <<"textstyle", "one", <<"FontWeight">>, <<"fo:font-weight">>>>,
   set_font_bold |-> <<"textstyle", "bold", <<>>, <<"fo:font-weight">>>>,
   set_font_variant |-> <<"textstyle", "one", <<"FontVariant">>, <<"fo:font-variant">>>>,
   set_font_attr |-> <<"textstyle", "fontattr", <<"FontSize", "bool", "bool">>, <<"fo:font-size", "fo:font-weight", "fo:font-style">>>>,
   set_locale_asian |-> <<"textstyle", "locale", <<"Locale">>, <<"style:language-asian", "style:country-asian", "style:script-asian">>>>,
   set_font_name_asian |-> <<"textstyle", "one", <<"str">>, <<"style:font-name-asian">>>>,
   set_font_size_asian |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-asian">>>>,
   set_font_size_rel_asian |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-rel-asian">>>>,
   set_font_style_asian |-> <<"textstyle", "one", <<"FontStyle">>, <<"style:font-style-asian">>>>,
   set_font_italic_asian |-> <<"textstyle", "italic", <<>>, <<"style:font-style-asian">>>>,
   set_font_weight_asian |-> <<"textstyle", "one", <<"FontWeight">>, <<"style:font-weight-asian">>>>,
   set_font_bold_asian |-> <<"textstyle", "bold", <<>>, <<"style:font-weight-asian">>>>,
   set_font_attr_asian |-> <<"textstyle", "fontattr", <<"FontSize", "bool", "bool">>, <<"style:font-size-asian", "style:font-weight-asian", "style:font-style-asian">>>>,
   set_locale_complex |-> <<"textstyle", "locale", <<"Locale">>, <<"style:language-complex", "style:country-complex", "style:script-complex">>>>,
   set_font_name_complex |-> <<"textstyle", "one", <<"str">>, <<"style:font-name-complex">>>>,
   set_font_size_complex |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-complex">>>>,
   set_font_size_rel_complex |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-rel-complex">>>>,
   set_font_style_complex |-> <<"textstyle", "one", <<"FontStyle">>, <<"style:font-style-complex">>>>,
   set_font_italic_complex |-> <<"textstyle", "italic", <<>>, <<"style:font-style-complex">>>>,
   set_font_weight_complex |-> <<"textstyle", "one", <<"FontWeight">>, <<"style:font-weight-complex">>>>,
   set_font_bold_complex |-> <<"textstyle", "bold", <<>>, <<"style:font-weight-complex">>>>,
   set_font_attr_complex |-> <<"textstyle", "fontattr", <<"FontSize", "bool", "bool">>, <<"style:font-size-complex", "style:font-weight-complex", "style:font-style-complex">>>>,
   set_hyphenate |-> <<"textstyle", "one", <<"bool">>, <<"fo:hyphenate">>>>,
   set_hyphenation_push_char_count |-> <<"textstyle", "one", <<"u32">>, <<"fo:hyphenation-push-char-count">>>>,
   set_hyphenation_remain_char_count |-> <<"textstyle", "one", <<"u32">>, <<"fo:hyphenation-remain-char-count">>>>,
   set_letter_spacing |-> <<"textstyle", "one", <<"LetterSpacing">>, <<"fo:letter-spacing">>>>,
   set_text_shadow |-> <<"textstyle", "shadow", <<"Length", "Length", "?Length", "Rgb">>, <<"fo:text-shadow">>>>,
   set_text_transform |-> <<"textstyle", "one", <<"TextTransform">>, <<"fo:text-transform">>>>,
   set_font_relief |-> <<"textstyle", "one", <<"TextRelief">>, <<"style:font-relief">>>>,
   set_text_position |-> <<"textstyle", "pos", <<"TextPosition", "?Percent">>, <<"style:text-position">>>>,
   set_rotation_scale |-> <<"textstyle", "one", <<"RotationScale">>, <<"style:text-rotation-scale">>>>,
   set_letter_kerning |-> <<"textstyle", "one", <<"bool">>, <<"style:letter-kerning">>>>,
   set_text_combine |-> <<"textstyle", "one", <<"TextCombine">>, <<"style:text-combine">>>>,
   set_text_combine_start_char |-> <<"textstyle", "one", <<"char">>, <<"style:text-combine-start-char">>>>,
   set_text_combine_end_char |-> <<"textstyle", "one", <<"char">>, <<"style:text-combine-end-char">>>>,
   set_text_emphasize |-> <<"textstyle", "emph", <<"TextEmphasize", "TextEmphasizePosition">>, <<"style:text-emphasize">>>>,
   set_text_line_through_color |-> <<"textstyle", "one", <<"Rgb">>, <<"style:text-line-through-color">>>>,
   set_text_line_through_mode |-> <<"textstyle", "one", <<"LineMode">>, <<"style:text-line-through-mode">>>>,
   set_text_line_through_style |-> <<"textstyle", "one", <<"LineStyle">>, <<"style:text-line-through-style">>>>,
   set_text_line_through_text |-> <<"textstyle", "one", <<"str">>, <<"style:text-line-through-text">>>>,
   set_text_line_through_text_style |-> <<"textstyle", "one", <<"TextStyleRef">>, <<"style:text-line-through-text-style">>>>,
   set_text_line_through_type |-> <<"textstyle", "one", <<"LineType">>, <<"style:text-line-through-type">>>>,
   set_text_line_through_width |-> <<"textstyle", "one", <<"LineWidth">>, <<"style:text-line-through-width">>>>,
   set_font_text_outline |-> <<"textstyle", "one", <<"bool">>, <<"style:text-outline">>>>,
   set_text_overline_color |-> <<"textstyle", "one", <<"Rgb">>, <<"style:text-overline-color">>>>,
   set_text_overline_mode |-> <<"textstyle", "one", <<"LineMode">>, <<"style:text-overline-mode">>>>,
   set_text_overline_style |-> <<"textstyle", "one", <<"LineStyle">>, <<"style:text-overline-style">>>>,
   set_text_overline_type |-> <<"textstyle", "one", <<"LineType">>, <<"style:text-overline-type">>>>,
   set_text_overline_width |-> <<"textstyle", "one", <<"LineWidth">>, <<"style:text-overline-width">>>>,
   set_text_underline_color |-> <<"textstyle", "one", <<"Rgb">>, <<"style:text-underline-color">>>>,
   set_text_underline_mode |-> <<"textstyle", "one", <<"LineMode">>, <<"style:text-underline-mode">>>>,
   set_text_underline_style |-> <<"textstyle", "one", <<"LineStyle">>, <<"style:text-underline-style">>>>,
   set_text_underline_type |-> <<"textstyle", "one", <<"LineType">>, <<"style:text-underline-type">>>>,
   set_text_underline_width |-> <<"textstyle", "one", <<"LineWidth">>, <<"style:text-underline-width">>>>,
   set_use_window_font_color |-> <<"textstyle", "one", <<"bool">>, <<"style:use-window-font-color">>>>,
   set_text_condition |-> <<"textstyle", "one", <<"TextCondition">>, <<"text:condition">>>>,
   set_display |-> <<"textstyle", "one", <<"TextDisplay">>, <<"text:display">>>>]
Rows_text ==
  [set_auto_update |-> <<"attr", "one", <<"bool">>, <<"style:auto-update">>>>,
   set_class |-> <<"attr", "one", <<"str">>, <<"style:class">>>>,
   set_display_name |-> <<"attr", "one", <<"str">>, <<"style:display-name">>>>,
   set_parent_style |-> <<"attr", "one", <<"TextStyleRef">>, <<"style:parent-style-name">>>>,
   set_background_color |-> <<"textstyle", "one", <<"Rgb">>, <<"fo:background-color">>>>,
   set_color |-> <<"textstyle", "one", <<"Rgb">>, <<"fo:color">>>>,
   set_locale |-> <<"textstyle", "locale", <<"Locale">>, <<"fo:language", "fo:country", "fo:script">>>>,
   set_font_name |-> <<"textstyle", "one", <<"str">>, <<"style:font-name">>>>,
   set_font_size |-> <<"textstyle", "one", <<"FontSize">>, <<"fo:font-size">>>>,
   set_font_size_rel |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-rel">>>>,
   set_font_style |-> <<"textstyle", "one", <<"FontStyle">>, <<"fo:font-style">>>>,
   set_font_italic |-> <<"textstyle", "italic", <<>>, <<"fo:font-style">>>>,
   set_font_weight |-> <<"textstyle", "one", <<"FontWeight">>, <<"fo:font-weight">>>>,
   set_font_bold |-> <<"textstyle", "bold", <<>>, <<"fo:font-weight">>>>,
   set_font_variant |-> <<"textstyle", "one", <<"FontVariant">>, <<"fo:font-variant">>>>,
   set_font_attr |-> <<"textstyle", "fontattr", <<"FontSize", "bool", "bool">>, <<"fo:font-size", "fo:font-weight", "fo:font-style">>>>,
   set_locale_asian |-> <<"textstyle", "locale", <<"Locale">>, <<"style:language-asian", "style:country-asian", "style:script-asian">>>>,
   set_font_name_asian |-> <<"textstyle", "one", <<"str">>, <<"style:font-name-asian">>>>,
   set_font_size_asian |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-asian">>>>,
   set_font_size_rel_asian |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-rel-asian">>>>,
   set_font_style_asian |-> <<"textstyle", "one", <<"FontStyle">>, <<"style:font-style-asian">>>>,
   set_font_italic_asian |-> <<"textstyle", "italic", <<>>, <<"style:font-style-asian">>>>,
   set_font_weight_asian |-> <<"textstyle", "one", <<"FontWeight">>, <<"style:font-weight-asian">>>>,
   set_font_bold_asian |-> <<"textstyle", "bold", <<>>, <<"style:font-weight-asian">>>>,
   set_font_attr_asian |-> <<"textstyle", "fontattr", <<"FontSize", "bool", "bool">>, <<"style:font-size-asian", "style:font-weight-asian", "style:font-style-asian">>>>,
   set_locale_complex |-> <<"textstyle", "locale", <<"Locale">>, <<"style:language-complex", "style:country-complex", "style:script-complex">>>>,
   set_font_name_complex |-> <<"textstyle", "one", <<"str">>, <<"style:font-name-complex">>>>,
   set_font_size_complex |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-complex">>>>,
   set_font_size_rel_complex |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-rel-complex">>>>,
   set_font_style_complex |-> <<"textstyle", "one", <<"FontStyle">>, <<"style:font-style-complex">>>>,
   set_font_italic_complex |-> <<"textstyle", "italic", <<>>, <<"style:font-style-complex">>>>,
   set_font_weight_complex |-> <<"textstyle", "one", <<"FontWeight">>, <<"style:font-weight-complex">>>>,
   set_font_bold_complex |-> <<"textstyle", "bold", <<>>, <<"style:font-weight-complex">>>>,
   set_font_attr_complex |-> <<"textstyle", "fontattr", <<"FontSize", "bool", "bool">>, <<"style:font-size-complex", "style:font-weight-complex", "style:font-style-complex">>>>,
   set_hyphenate |-> <<"textstyle", "one", <<"bool">>, <<"fo:hyphenate">>>>,
   set_hyphenation_push_char_count |-> <<"textstyle", "one", <<"u32">>, <<"fo:hyphenation-push-char-count">>>>,
   set_hyphenation_remain_char_count |-> <<"textstyle", "one", <<"u32">>, <<"fo:hyphenation-remain-char-count">>>>,
   set_letter_spacing |-> <<"textstyle", "one", <<"LetterSpacing">>, <<"fo:letter-spacing">>>>,
   set_text_shadow |-> <<"textstyle", "shadow", <<"Length", "Length", "?Length", "Rgb">>, <<"fo:text-shadow">>>>,
   set_text_transform |-> <<"textstyle", "one", <<"TextTransform">>, <<"fo:text-transform">>>>,
   set_font_relief |-> <<"textstyle", "one", <<"TextRelief">>, <<"style:font-relief">>>>,
   set_text_position |-> <<"textstyle", "pos", <<"TextPosition", "?Percent">>, <<"style:text-position">>>>,
   set_rotation_angle |-> <<"textstyle", "one", <<"Angle">>, <<"style:rotation-angle">>>>,
   set_rotation_scale |-> <<"textstyle", "one", <<"RotationScale">>, <<"style:text-rotation-scale">>>>,
   set_letter_kerning |-> <<"textstyle", "one", <<"bool">>, <<"style:letter-kerning">>>>,
   set_text_combine |-> <<"textstyle", "one", <<"TextCombine">>, <<"style:text-combine">>>>,
   set_text_combine_start_char |-> <<"textstyle", "one", <<"char">>, <<"style:text-combine-start-char">>>>,
   set_text_combine_end_char |-> <<"textstyle", "one", <<"char">>, <<"style:text-combine-end-char">>>>,
   set_text_emphasize |-> <<"textstyle", "emph", <<"TextEmphasize", "TextEmphasizePosition">>, <<"style:text-emphasize">>>>,
   set_text_line_through_color |-> <<"textstyle", "one", <<"Rgb">>, <<"style:text-line-through-color">>>>,
   set_text_line_through_mode |-> <<"textstyle", "one", <<"LineMode">>, <<"style:text-line-through-mode">>>>,
   set_text_line_through_style |-> <<"textstyle", "one", <<"LineStyle">>, <<"style:text-line-through-style">>>>,
   set_text_line_through_text |-> <<"textstyle", "one", <<"str">>, <<"style:text-line-through-text">>>>,
   set_text_line_through_text_style |-> <<"textstyle", "one", <<"TextStyleRef">>, <<"style:text-line-through-text-style">>>>,
   set_text_line_through_type |-> <<"textstyle", "one", <<"LineType">>, <<"style:text-line-through-type">>>>,
   set_text_line_through_width |-> <<"textstyle", "one", <<"LineWidth">>, <<"style:text-line-through-width">>>>,
   set_font_text_outline |-> <<"textstyle", "one", <<"bool">>, <<"style:text-outline">>>>,
   set_text_overline_color |-> <<"textstyle", "one", <<"Rgb">>, <<"style:text-overline-color">>>>,
   set_text_overline_mode |-> <<"textstyle", "one", <<"LineMode">>, <<"style:text-overline-mode">>>>,
   set_text_overline_style |-> <<"textstyle", "one", <<"LineStyle">>, <<"style:text-overline-style">>>>,
   set_text_overline_type |-> <<"textstyle", "one", <<"LineType">>, <<"style:text-overline-type">>>>,
   set_text_overline_width |-> <<"textstyle", "one", <<"LineWidth">>, <<"style:text-overline-width">>>>,
   set_text_underline_color |-> <<"textstyle", "one", <<"Rgb">>, <<"style:text-underline-color">>>>,
   set_text_underline_mode |-> <<"textstyle", "one", <<"LineMode">>, <<"style:text-underline-mode">>>>,
   set_text_underline_style |-> <<"textstyle", "one", <<"LineStyle">>, <<"style:text-underline-style">>>>,
   set_text_underline_type |-> <<"textstyle", "one", <<"LineType">>, <<"style:text-underline-type">>>>,
   set_text_underline_width |-> <<"textstyle", "one", <<"LineWidth">>, <<"style:text-underline-width">>>>,
   set_use_window_font_color |-> <<"textstyle", "one", <<"bool">>, <<"style:use-window-font-color">>>>,
   set_text_condition |-> <<"textstyle", "one", <<"TextCondition">>, <<"text:condition">>>>,
   set_display |-> <<"textstyle", "one", <<"TextDisplay">>, <<"text:display">>>>]
Rows_ruby ==
  [set_auto_update |-> <<"attr", "one", <<"bool">>, <<"style:auto-update">>>>,
   set_class |-> <<"attr", "one", <<"str">>, <<"style:class">>>>,
   set_display_name |-> <<"attr", "one", <<"str">>, <<"style:display-name">>>>,
   set_parent_style |-> <<"attr", "one", <<"RubyStyleRef">>, <<"style:parent-style-name">>>>]
Rows_graphic ==
  [set_auto_update |-> <<"attr", "one", <<"bool">>, <<"style:auto-update">>>>,
   set_class |-> <<"attr", "one", <<"str">>, <<"style:class">>>>,
   set_display_name |-> <<"attr", "one", <<"str">>, <<"style:display-name">>>>,
   set_parent_style |-> <<"attr", "one", <<"GraphicStyleRef">>, <<"style:parent-style-name">>>>,
   set_background_color |-> <<"paragraphstyle", "one", <<"Rgb">>, <<"fo:background-color">>>>,
   set_border |-> <<"paragraphstyle", "border", <<"Length", "Border", "Rgb">>, <<"fo:border">>>>,
   set_border_bottom |-> <<"paragraphstyle", "border", <<"Length", "Border", "Rgb">>, <<"fo:border-bottom">>>>,
   set_border_left |-> <<"paragraphstyle", "border", <<"Length", "Border", "Rgb">>, <<"fo:border-left">>>>,
   set_border_right |-> <<"paragraphstyle", "border", <<"Length", "Border", "Rgb">>, <<"fo:border-right">>>>,
   set_border_top |-> <<"paragraphstyle", "border", <<"Length", "Border", "Rgb">>, <<"fo:border-top">>>>,
   set_break_before |-> <<"paragraphstyle", "one", <<"PageBreak">>, <<"fo:break-before">>>>,
   set_break_after |-> <<"paragraphstyle", "one", <<"PageBreak">>, <<"fo:break-after">>>>,
   set_hyphenation_keep |-> <<"paragraphstyle", "one", <<"Hyphenation">>, <<"fo:hyphenation-keep">>>>,
   set_hyphenation_ladder_count |-> <<"paragraphstyle", "one", <<"HyphenationLadderCount">>, <<"fo:hyphenation-ladder-count">>>>,
   set_keep_together |-> <<"paragraphstyle", "one", <<"TextKeep">>, <<"fo:keep-together">>>>,
   set_keep_with_next |-> <<"paragraphstyle", "one", <<"TextKeep">>, <<"fo:keep-with-next">>>>,
   set_line_height |-> <<"paragraphstyle", "one", <<"LineHeight">>, <<"fo:line-height">>>>,
   set_margin |-> <<"paragraphstyle", "one", <<"Margin">>, <<"fo:margin">>>>,
   set_margin_bottom |-> <<"paragraphstyle", "one", <<"Margin">>, <<"fo:margin-bottom">>>>,
   set_margin_left |-> <<"paragraphstyle", "one", <<"Margin">>, <<"fo:margin-left">>>>,
   set_margin_right |-> <<"paragraphstyle", "one", <<"Margin">>, <<"fo:margin-right">>>>,
   set_margin_top |-> <<"paragraphstyle", "one", <<"Margin">>, <<"fo:margin-top">>>>,
   set_orphans |-> <<"paragraphstyle", "one", <<"u32">>, <<"fo:orphans">>>>,
   set_padding |-> <<"paragraphstyle", "one", <<"Length">>, <<"fo:padding">>>>,
   set_padding_bottom |-> <<"paragraphstyle", "one", <<"Length">>, <<"fo:padding-bottom">>>>,
   set_padding_left |-> <<"paragraphstyle", "one", <<"Length">>, <<"fo:padding-left">>>>,
   set_padding_right |-> <<"paragraphstyle", "one", <<"Length">>, <<"fo:padding-right">>>>,
   set_padding_top |-> <<"paragraphstyle", "one", <<"Length">>, <<"fo:padding-top">>>>,
   set_text_align |-> <<"paragraphstyle", "one", <<"TextAlign">>, <<"fo:text-align">>>>,
   set_text_align_last |-> <<"paragraphstyle", "one", <<"TextAlignLast">>, <<"fo:text-align-last">>>>,
   set_text_indent |-> <<"paragraphstyle", "one", <<"Indent">>, <<"fo:text-indent">>>>,
   set_widows |-> <<"paragraphstyle", "one", <<"u32">>, <<"fo:widows">>>>,
   set_auto_text_indent |-> <<"paragraphstyle", "one", <<"bool">>, <<"style:auto-text-indent">>>>,
   set_background_transpareny |-> <<"paragraphstyle", "one", <<"Percent">>, <<"style:background-transparency">>>>,
   set_border_line_width |-> <<"paragraphstyle", "widths", <<"Length", "Length", "Length">>, <<"style:border-line-width">>>>,
   set_border_line_width_bottom |-> <<"paragraphstyle", "widths", <<"Length", "Length", "Length">>, <<"style:border-line-width-bottom">>>>,
   set_border_line_width_left |-> <<"paragraphstyle", "widths", <<"Length", "Length", "Length">>, <<"style:border-line-width-left">>>>,
   set_border_line_width_right |-> <<"paragraphstyle", "widths", <<"Length", "Length", "Length">>, <<"style:border-line-width-right">>>>,
   set_border_line_width_top |-> <<"paragraphstyle", "widths", <<"Length", "Length", "Length">>, <<"style:border-line-width-top">>>>,
   set_contextual_spacing |-> <<"paragraphstyle", "one", <<"bool">>, <<"style:contextual-spacing">>>>,
   set_font_independent_line_spacing |-> <<"paragraphstyle", "one", <<"bool">>, <<"style:font-independent-line-spacing">>>>,
   set_join_border |-> <<"paragraphstyle", "one", <<"bool">>, <<"style:join-border">>>>,
   set_justify_single_word |-> <<"paragraphstyle", "one", <<"bool">>, <<"style:justify-single-word">>>>,
   set_line_break |-> <<"paragraphstyle", "one", <<"LineBreak">>, <<"style:line-break">>>>,
   set_line_height_at_least |-> <<"paragraphstyle", "one", <<"Length">>, <<"style:line-height-at-least">>>>,
   set_line_spacing |-> <<"paragraphstyle", "one", <<"Length">>, <<"style:line-spacing">>>>,
   set_page_number |-> <<"paragraphstyle", "one", <<"PageNumber">>, <<"style:page-number">>>>,
   set_punctuation_wrap |-> <<"paragraphstyle", "one", <<"PunctuationWrap">>, <<"style:punctuation-wrap">>>>,
   set_register_true |-> <<"paragraphstyle", "one", <<"bool">>, <<"style:register-true">>>>,
   set_shadow |-> <<"paragraphstyle", "shadow", <<"Length", "Length", "?Length", "Rgb">>, <<"style:shadow">>>>,
   set_snap_to_layout_grid |-> <<"paragraphstyle", "one", <<"bool">>, <<"style:snap-to-layout-grid">>>>,
   set_tab_stop_distance |-> <<"paragraphstyle", "one", <<"Length">>, <<"style:tab-stop-distance">>>>,
   set_text_autospace |-> <<"paragraphstyle", "one", <<"TextAutoSpace">>, <<"style:text-autospace">>>>,
   set_vertical_align_para |-> <<"paragraphstyle", "one", <<"ParaAlignVertical">>, <<"style:vertical-align">>>>,
   set_writing_mode |-> <<"paragraphstyle", "one", <<"WritingMode">>, <<"style:writing-mode">>>>,
   set_writing_mode_automatic |-> <<"paragraphstyle", "one", <<"bool">>, <<"style:writing-mode-automatic">>>>,
   set_line_number |-> <<"paragraphstyle", "one", <<"u32">>, <<"text:line-number">>>>,
   set_number_lines |-> <<"paragraphstyle", "one", <<"bool">>, <<"text:number-lines">>>>,
   set_color |-> <<"textstyle", "one", <<"Rgb">>, <<"fo:color">>>>,
   set_locale |-> <<"textstyle", "locale", <<"Locale">>, <<"fo:language", "fo:country", "fo:script">>>>,
   set_font_name |-> <<"textstyle", "one", <<"str">>, <<"style:font-name">>>>,
   set_font_size |-> <<"textstyle", "one", <<"FontSize">>, <<"fo:font-size">>>>,
   set_font_size_rel |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-rel">>>>,
   set_font_style |-> <<"textstyle", "one", <<"FontStyle">>, <<"fo:font-style">>>>,
   set_font_italic |-> <<"textstyle", "italic", <<>>, <<"fo:font-style">>>>,
   set_font_weight |-> <<"textstyle", "one", <<"FontWeight">>, <<"fo:font-weight">>>>,
   set_font_bold |-> <<"textstyle", "bold", <<>>, <<"fo:font-weight">>>>,
   set_font_variant |-> <<"textstyle", "one", <<"FontVariant">>, <<"fo:font-variant">>>>,
   set_font_attr |-> <<"textstyle", "fontattr", <<"FontSize", "bool", "bool">>, <<"fo:font-size", "fo:font-weight", "fo:font-style">>>>,
   set_locale_asian |-> <<"textstyle", "locale", <<"Locale">>, <<"style:language-asian", "style:country-asian", "style:script-asian">>>>,
   set_font_name_asian |-> <<"textstyle", "one", <<"str">>, <<"style:font-name-asian">>>>,
   set_font_size_asian |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-asian">>>>,
   set_font_size_rel_asian |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-rel-asian">>>>,
   set_font_style_asian |-> <<"textstyle", "one", <<"FontStyle">>, <<"style:font-style-asian">>>>,
   set_font_italic_asian |-> <<"textstyle", "italic", <<>>, <<"style:font-style-asian">>>>,
   set_font_weight_asian |-> <<"textstyle", "one", <<"FontWeight">>, <<"style:font-weight-asian">>>>,
   set_font_bold_asian |-> <<"textstyle", "bold", <<>>, <<"style:font-weight-asian">>>>,
   set_font_attr_asian |-> <<"textstyle", "fontattr", <<"FontSize", "bool", "bool">>, <<"style:font-size-asian", "style:font-weight-asian", "style:font-style-asian">>>>,
   set_locale_complex |-> <<"textstyle", "locale", <<"Locale">>, <<"style:language-complex", "style:country-complex", "style:script-complex">>>>,
   set_font_name_complex |-> <<"textstyle", "one", <<"str">>, <<"style:font-name-complex">>>>,
   set_font_size_complex |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-complex">>>>,
   set_font_size_rel_complex |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-rel-complex">>>>,
   set_font_style_complex |-> <<"textstyle", "one", <<"FontStyle">>, <<"style:font-style-complex">>>>,
   set_font_italic_complex |-> <<"textstyle", "italic", <<>>, <<"style:font-style-complex">>>>,
   set_font_weight_complex |-> <<"textstyle", "one", <<"FontWeight">>, <<"style:font-weight-complex">>>>,
   set_font_bold_complex |-> <<"textstyle", "bold", <<>>, <<"style:font-weight-complex">>>>,
   set_font_attr_complex |-> <<"textstyle", "fontattr", <<"FontSize", "bool", "bool">>, <<"style:font-size-complex", "style:font-weight-complex", "style:font-style-complex">>>>,
   set_hyphenate |-> <<"textstyle", "one", <<"bool">>, <<"fo:hyphenate">>>>,
   set_hyphenation_push_char_count |-> <<"textstyle", "one", <<"u32">>, <<"fo:hyphenation-push-char-count">>>>,
   set_hyphenation_remain_char_count |-> <<"textstyle", "one", <<"u32">>, <<"fo:hyphenation-remain-char-count">>>>,
   set_letter_spacing |-> <<"textstyle", "one", <<"LetterSpacing">>, <<"fo:letter-spacing">>>>,
   set_text_shadow |-> <<"textstyle", "shadow", <<"Length", "Length", "?Length", "Rgb">>, <<"fo:text-shadow">>>>,
   set_text_transform |-> <<"textstyle", "one", <<"TextTransform">>, <<"fo:text-transform">>>>,
   set_font_relief |-> <<"textstyle", "one", <<"TextRelief">>, <<"style:font-relief">>>>,
   set_text_position |-> <<"textstyle", "pos", <<"TextPosition", "?Percent">>, <<"style:text-position">>>>,
   set_rotation_scale |-> <<"textstyle", "one", <<"RotationScale">>, <<"style:text-rotation-scale">>>>,
   set_letter_kerning |-> <<"textstyle", "one", <<"bool">>, <<"style:letter-kerning">>>>,
   set_text_combine |-> <<"textstyle", "one", <<"TextCombine">>, <<"style:text-combine">>>>,
   set_text_combine_start_char |-> <<"textstyle", "one", <<"char">>, <<"style:text-combine-start-char">>>>,
   set_text_combine_end_char |-> <<"textstyle", "one", <<"char">>, <<"style:text-combine-end-char">>>>,
   set_text_emphasize |-> <<"textstyle", "emph", <<"TextEmphasize", "TextEmphasizePosition">>, <<"style:text-emphasize">>>>,
   set_text_line_through_color |-> <<"textstyle", "one", <<"Rgb">>, <<"style:text-line-through-color">>>>,
   set_text_line_through_mode |-> <<"textstyle", "one", <<"LineMode">>, <<"style:text-line-through-mode">>>>,
   set_text_line_through_style |-> <<"textstyle", "one", <<"LineStyle">>, <<"style:text-line-through-style">>>>,
   set_text_line_through_text |-> <<"textstyle", "one", <<"str">>, <<"style:text-line-through-text">>>>,
   set_text_line_through_text_style |-> <<"textstyle", "one", <<"TextStyleRef">>, <<"style:text-line-through-text-style">>>>,
   set_text_line_through_type |-> <<"textstyle", "one", <<"LineType">>, <<"style:text-line-through-type">>>>,
   set_text_line_through_width |-> <<"textstyle", "one", <<"LineWidth">>, <<"style:text-line-through-width">>>>,
   set_font_text_outline |-> <<"textstyle", "one", <<"bool">>, <<"style:text-outline">>>>,
   set_text_overline_color |-> <<"textstyle", "one", <<"Rgb">>, <<"style:text-overline-color">>>>,
   set_text_overline_mode |-> <<"textstyle", "one", <<"LineMode">>, <<"style:text-overline-mode">>>>,
   set_text_overline_style |-> <<"textstyle", "one", <<"LineStyle">>, <<"style:text-overline-style">>>>,
   set_text_overline_type |-> <<"textstyle", "one", <<"LineType">>, <<"style:text-overline-type">>>>,
   set_text_overline_width |-> <<"textstyle", "one", <<"LineWidth">>, <<"style:text-overline-width">>>>,
   set_text_underline_color |-> <<"textstyle", "one", <<"Rgb">>, <<"style:text-underline-color">>>>,
   set_text_underline_mode |-> <<"textstyle", "one", <<"LineMode">>, <<"style:text-underline-mode">>>>,
   set_text_underline_style |-> <<"textstyle", "one", <<"LineStyle">>, <<"style:text-underline-style">>>>,
   set_text_underline_type |-> <<"textstyle", "one", <<"LineType">>, <<"style:text-underline-type">>>>,
   set_text_underline_width |-> <<"textstyle", "one", <<"LineWidth">>, <<"style:text-underline-width">>>>,
   set_use_window_font_color |-> <<"textstyle", "one", <<"bool">>, <<"style:use-window-font-color">>>>,
   set_text_condition |-> <<"textstyle", "one", <<"TextCondition">>, <<"text:condition">>>>,
   set_display |-> <<"textstyle", "one", <<"TextDisplay">>, <<"text:display">>>>]
Rows_font ==
  [set_font_family_generic |-> <<"attr", "one", <<"FontFamilyGeneric">>, <<"style:font-family-generic">>>>,
   set_font_pitch |-> <<"attr", "one", <<"FontPitch">>, <<"style:font-pitch">>>>,
   set_font_family |-> <<"attr", "one", <<"str">>, <<"svg:font-family">>>>,
   set_font_stretch |-> <<"attr", "one", <<"FontStretch">>, <<"svg:font-stretch">>>>,
   set_font_style |-> <<"attr", "one", <<"FontStyle">>, <<"svg:font-style">>>>,
   set_font_variant |-> <<"attr", "one", <<"FontVariant">>, <<"svg:font-variant">>>>,
   set_font_weight |-> <<"attr", "one", <<"FontWeight">>, <<"svg:font-weight">>>>]
Rows_page ==
  [set_page_height |-> <<"style", "one", <<"Length">>, <<"fo:page-height">>>>,
   set_page_width |-> <<"style", "one", <<"Length">>, <<"fo:page-width">>>>,
   set_first_page_number |-> <<"style", "one", <<"u32">>, <<"style:first-page-number">>>>,
   set_footnote_max_height |-> <<"style", "one", <<"Length">>, <<"style:footnote-max-height">>>>,
   set_num_format |-> <<"style", "one", <<"StyleNumFormat">>, <<"style:num-format">>>>,
   set_num_letter_sync |-> <<"style", "one", <<"bool">>, <<"style:num-letter-sync">>>>,
   set_num_prefix |-> <<"style", "one", <<"str">>, <<"style:num-prefix">>>>,
   set_num_suffix |-> <<"style", "one", <<"str">>, <<"style:num-suffix">>>>,
   set_paper_tray_name |-> <<"style", "one", <<"str">>, <<"style:paper-tray-name">>>>,
   set_print |-> <<"style", "list", <<"[PrintContent]">>, <<"style:print">>>>,
   set_print_orientation |-> <<"style", "one", <<"PrintOrientation">>, <<"style:print-orientation">>>>,
   set_print_page_order |-> <<"style", "one", <<"PrintOrder">>, <<"style:print-page-order">>>>,
   set_scale_to |-> <<"style", "one", <<"Percent">>, <<"style:scale-to">>>>,
   set_scale_to_pages |-> <<"style", "one", <<"u32">>, <<"style:scale-to-pages">>>>,
   set_table_centering |-> <<"style", "one", <<"PrintCentering">>, <<"style:table-centering">>>>,
   set_writing_mode |-> <<"style", "one", <<"WritingMode">>, <<"style:writing-mode">>>>,
   set_background_color |-> <<"style", "one", <<"Rgb">>, <<"fo:background-color">>>>,
   set_border |-> <<"style", "border", <<"Length", "Border", "Rgb">>, <<"fo:border">>>>,
   set_border_bottom |-> <<"style", "border", <<"Length", "Border", "Rgb">>, <<"fo:border-bottom">>>>,
   set_border_left |-> <<"style", "border", <<"Length", "Border", "Rgb">>, <<"fo:border-left">>>>,
   set_border_right |-> <<"style", "border", <<"Length", "Border", "Rgb">>, <<"fo:border-right">>>>,
   set_border_top |-> <<"style", "border", <<"Length", "Border", "Rgb">>, <<"fo:border-top">>>>,
   set_border_line_width |-> <<"style", "widths", <<"Length", "Length", "Length">>, <<"style:border-line-width">>>>,
   set_border_line_width_bottom |-> <<"style", "widths", <<"Length", "Length", "Length">>, <<"style:border-line-width-bottom">>>>,
   set_border_line_width_left |-> <<"style", "widths", <<"Length", "Length", "Length">>, <<"style:border-line-width-left">>>>,
   set_border_line_width_right |-> <<"style", "widths", <<"Length", "Length", "Length">>, <<"style:border-line-width-right">>>>,
   set_border_line_width_top |-> <<"style", "widths", <<"Length", "Length", "Length">>, <<"style:border-line-width-top">>>>,
   set_margin |-> <<"style", "one", <<"Margin">>, <<"fo:margin">>>>,
   set_margin_bottom |-> <<"style", "one", <<"Margin">>, <<"fo:margin-bottom">>>>,
   set_margin_left |-> <<"style", "one", <<"Margin">>, <<"fo:margin-left">>>>,
   set_margin_right |-> <<"style", "one", <<"Margin">>, <<"fo:margin-right">>>>,
   set_margin_top |-> <<"style", "one", <<"Margin">>, <<"fo:margin-top">>>>,
   set_padding |-> <<"style", "one", <<"Length">>, <<"fo:padding">>>>,
   set_padding_bottom |-> <<"style", "one", <<"Length">>, <<"fo:padding-bottom">>>>,
   set_padding_left |-> <<"style", "one", <<"Length">>, <<"fo:padding-left">>>>,
   set_padding_right |-> <<"style", "one", <<"Length">>, <<"fo:padding-right">>>>,
   set_padding_top |-> <<"style", "one", <<"Length">>, <<"fo:padding-top">>>>,
   set_dynamic_spacing |-> <<"style", "one", <<"bool">>, <<"style:dynamic-spacing">>>>,
   set_shadow |-> <<"style", "shadow", <<"Length", "Length", "?Length", "Rgb">>, <<"style:shadow">>>>,
   h_set_background_color |-> <<"headerstyle", "one", <<"Rgb">>, <<"fo:background-color">>>>,
   f_set_background_color |-> <<"footerstyle", "one", <<"Rgb">>, <<"fo:background-color">>>>,
   h_set_border |-> <<"headerstyle", "border", <<"Length", "Border", "Rgb">>, <<"fo:border">>>>,
   f_set_border |-> <<"footerstyle", "border", <<"Length", "Border", "Rgb">>, <<"fo:border">>>>,
   h_set_border_bottom |-> <<"headerstyle", "border", <<"Length", "Border", "Rgb">>, <<"fo:border-bottom">>>>,
   f_set_border_bottom |-> <<"footerstyle", "border", <<"Length", "Border", "Rgb">>, <<"fo:border-bottom">>>>,
   h_set_border_left |-> <<"headerstyle", "border", <<"Length", "Border", "Rgb">>, <<"fo:border-left">>>>,
   f_set_border_left |-> <<"footerstyle", "border", <<"Length", "Border", "Rgb">>, <<"fo:border-left">>>>,
   h_set_border_right |-> <<"headerstyle", "border", <<"Length", "Border", "Rgb">>, <<"fo:border-right">>>>,
   f_set_border_right |-> <<"footerstyle", "border", <<"Length", "Border", "Rgb">>, <<"fo:border-right">>>>,
   h_set_border_top |-> <<"headerstyle", "border", <<"Length", "Border", "Rgb">>, <<"fo:border-top">>>>,
   f_set_border_top |-> <<"footerstyle", "border", <<"Length", "Border", "Rgb">>, <<"fo:border-top">>>>,
   h_set_margin |-> <<"headerstyle", "one", <<"Margin">>, <<"fo:margin">>>>,
   f_set_margin |-> <<"footerstyle", "one", <<"Margin">>, <<"fo:margin">>>>,
   h_set_margin_bottom |-> <<"headerstyle", "one", <<"Margin">>, <<"fo:margin-bottom">>>>,
   f_set_margin_bottom |-> <<"footerstyle", "one", <<"Margin">>, <<"fo:margin-bottom">>>>,
   h_set_margin_left |-> <<"headerstyle", "one", <<"Margin">>, <<"fo:margin-left">>>>,
   f_set_margin_left |-> <<"footerstyle", "one", <<"Margin">>, <<"fo:margin-left">>>>,
   h_set_margin_right |-> <<"headerstyle", "one", <<"Margin">>, <<"fo:margin-right">>>>,
   f_set_margin_right |-> <<"footerstyle", "one", <<"Margin">>, <<"fo:margin-right">>>>,
   h_set_margin_top |-> <<"headerstyle", "one", <<"Margin">>, <<"fo:margin-top">>>>,
   f_set_margin_top |-> <<"footerstyle", "one", <<"Margin">>, <<"fo:margin-top">>>>,
   h_set_min_height |-> <<"headerstyle", "one", <<"LengthPercent">>, <<"fo:min-height">>>>,
   f_set_min_height |-> <<"footerstyle", "one", <<"LengthPercent">>, <<"fo:min-height">>>>,
   h_set_padding |-> <<"headerstyle", "one", <<"Length">>, <<"fo:padding">>>>,
   f_set_padding |-> <<"footerstyle", "one", <<"Length">>, <<"fo:padding">>>>,
   h_set_padding_bottom |-> <<"headerstyle", "one", <<"Length">>, <<"fo:padding-bottom">>>>,
   f_set_padding_bottom |-> <<"footerstyle", "one", <<"Length">>, <<"fo:padding-bottom">>>>,
   h_set_padding_left |-> <<"headerstyle", "one", <<"Length">>, <<"fo:padding-left">>>>,
   f_set_padding_left |-> <<"footerstyle", "one", <<"Length">>, <<"fo:padding-left">>>>,
   h_set_padding_right |-> <<"headerstyle", "one", <<"Length">>, <<"fo:padding-right">>>>,
   f_set_padding_right |-> <<"footerstyle", "one", <<"Length">>, <<"fo:padding-right">>>>,
   h_set_padding_top |-> <<"headerstyle", "one", <<"Length">>, <<"fo:padding-top">>>>,
   f_set_padding_top |-> <<"footerstyle", "one", <<"Length">>, <<"fo:padding-top">>>>,
   h_set_border_line_width |-> <<"headerstyle", "widths", <<"Length", "Length", "Length">>, <<"style:border-line-width">>>>,
   f_set_border_line_width |-> <<"footerstyle", "widths", <<"Length", "Length", "Length">>, <<"style:border-line-width">>>>,
   h_set_border_line_width_bottom |-> <<"headerstyle", "widths", <<"Length", "Length", "Length">>, <<"style:border-line-width-bottom">>>>,
   f_set_border_line_width_bottom |-> <<"footerstyle", "widths", <<"Length", "Length", "Length">>, <<"style:border-line-width-bottom">>>>,
   h_set_border_line_width_left |-> <<"headerstyle", "widths", <<"Length", "Length", "Length">>, <<"style:border-line-width-left">>>>,
   f_set_border_line_width_left |-> <<"footerstyle", "widths", <<"Length", "Length", "Length">>, <<"style:border-line-width-left">>>>,
   h_set_border_line_width_right |-> <<"headerstyle", "widths", <<"Length", "Length", "Length">>, <<"style:border-line-width-right">>>>,
   f_set_border_line_width_right |-> <<"footerstyle", "widths", <<"Length", "Length", "Length">>, <<"style:border-line-width-right">>>>,
   h_set_border_line_width_top |-> <<"headerstyle", "widths", <<"Length", "Length", "Length">>, <<"style:border-line-width-top">>>>,
   f_set_border_line_width_top |-> <<"footerstyle", "widths", <<"Length", "Length", "Length">>, <<"style:border-line-width-top">>>>,
   h_set_dynamic_spacing |-> <<"headerstyle", "one", <<"bool">>, <<"style:dynamic-spacing">>>>,
   f_set_dynamic_spacing |-> <<"footerstyle", "one", <<"bool">>, <<"style:dynamic-spacing">>>>,
   h_set_shadow |-> <<"headerstyle", "shadow", <<"Length", "Length", "?Length", "Rgb">>, <<"style:shadow">>>>,
   f_set_shadow |-> <<"footerstyle", "shadow", <<"Length", "Length", "?Length", "Rgb">>, <<"style:shadow">>>>,
   h_set_height |-> <<"headerstyle", "one", <<"Length">>, <<"svg:height">>>>,
   f_set_height |-> <<"footerstyle", "one", <<"Length">>, <<"svg:height">>>>,
   set_page_usage |-> <<"usage", "one", <<"MasterPageUsage">>, <<"style:page-usage">>>>,
   clear_page_usage |-> <<"usage", "clear", <<>>, <<"style:page-usage">>>>]
Rows_tab ==
  [set_char |-> <<"attr", "one", <<"char">>, <<"style:char">>>>,
   set_leader_color |-> <<"attr", "one", <<"Rgb">>, <<"style:leader-color">>>>,
   set_leader_style |-> <<"attr", "one", <<"LineStyle">>, <<"style:leader-style">>>>,
   set_leader_text |-> <<"attr", "one", <<"char">>, <<"style:leader-text">>>>,
   set_leader_text_style |-> <<"attr", "one", <<"TextStyleRef">>, <<"style:leader-text-style">>>>,
   set_leader_type |-> <<"attr", "one", <<"LineType">>, <<"style:leader-type">>>>,
   set_leader_width |-> <<"attr", "one", <<"LineWidth">>, <<"style:leader-width">>>>,
   set_position |-> <<"attr", "one", <<"Length">>, <<"style:position">>>>,
   set_type |-> <<"attr", "one", <<"TabStopType">>, <<"style:type">>>>]
Rows_annot ==
  [set_draw_caption_point_x |-> <<"attr", "one", <<"Length">>, <<"draw:caption-point-x">>>>,
   set_draw_caption_point_y |-> <<"attr", "one", <<"Length">>, <<"draw:caption-point-y">>>>,
   set_draw_class_names |-> <<"attr", "list", <<"[GraphicStyleRef]">>, <<"draw:class-names">>>>,
   set_draw_corner_radius |-> <<"attr", "one", <<"u32">>, <<"draw:corner-radius">>>>,
   set_draw_id |-> <<"attr", "one", <<"str">>, <<"draw:id">>>>,
   set_draw_layer |-> <<"attr", "one", <<"str">>, <<"draw:layer">>>>,
   set_draw_style_name |-> <<"attr", "one", <<"GraphicStyleRef">>, <<"draw:style-name">>>>,
   set_draw_text_style_name |-> <<"attr", "one", <<"ParagraphStyleRef">>, <<"draw:text-style-name">>>>,
   set_draw_transform |-> <<"attr", "list", <<"[S]">>, <<"draw:transform">>>>,
   set_draw_z_index |-> <<"attr", "one", <<"u32">>, <<"draw:z-index">>>>,
   set_height |-> <<"attr", "one", <<"Length">>, <<"svg:height">>>>,
   set_width |-> <<"attr", "one", <<"Length">>, <<"svg:width">>>>,
   svg_x |-> <<"attr", "one", <<"Length">>, <<"svg:x">>>>,
   svg_y |-> <<"attr", "one", <<"Length">>, <<"svg:y">>>>,
   set_table_end_cell_address |-> <<"attr", "one", <<"CellRef">>, <<"table:end-cell-address">>>>,
   set_table_end_x |-> <<"attr", "one", <<"Length">>, <<"table:end-x">>>>,
   set_table_end_y |-> <<"attr", "one", <<"Length">>, <<"table:end-y">>>>,
   set_table_table_background |-> <<"attr", "one", <<"bool">>, <<"table:table-background">>>>,
   set_xml_id |-> <<"attr", "one", <<"str">>, <<"xml:id">>>>]
Rows_frame ==
  [set_draw_name |-> <<"attr", "one", <<"str">>, <<"draw:name">>>>,
   set_draw_caption_id |-> <<"attr", "one", <<"str">>, <<"draw:caption-id">>>>,
   set_draw_class_names |-> <<"attr", "list", <<"[GraphicStyleRef]">>, <<"draw:class-names">>>>,
   set_draw_corner_radius |-> <<"attr", "one", <<"u32">>, <<"draw:corner-radius">>>>,
   set_draw_copy_of |-> <<"attr", "one", <<"str">>, <<"draw:copy-of">>>>,
   set_draw_id |-> <<"attr", "one", <<"str">>, <<"draw:id">>>>,
   set_draw_layer |-> <<"attr", "one", <<"str">>, <<"draw:layer">>>>,
   set_draw_style_name |-> <<"attr", "one", <<"GraphicStyleRef">>, <<"draw:style-name">>>>,
   set_draw_text_style_name |-> <<"attr", "one", <<"ParagraphStyleRef">>, <<"draw:text-style-name">>>>,
   set_draw_transform |-> <<"attr", "list", <<"[S]">>, <<"draw:transform">>>>,
   set_draw_z_index |-> <<"attr", "one", <<"u32">>, <<"draw:z-index">>>>,
   set_rel_height |-> <<"attr", "one", <<"RelativeScale">>, <<"style:rel-height">>>>,
   set_rel_width |-> <<"attr", "one", <<"RelativeScale">>, <<"style:rel-width">>>>,
   set_height |-> <<"attr", "one", <<"Length">>, <<"svg:height">>>>,
   set_width |-> <<"attr", "one", <<"Length">>, <<"svg:width">>>>,
   svg_x |-> <<"attr", "one", <<"Length">>, <<"svg:x">>>>,
   svg_y |-> <<"attr", "one", <<"Length">>, <<"svg:y">>>>,
   set_table_end_cell_address |-> <<"attr", "one", <<"CellRef">>, <<"table:end-cell-address">>>>,
   set_table_end_x |-> <<"attr", "one", <<"Length">>, <<"table:end-x">>>>,
   set_table_end_y |-> <<"attr", "one", <<"Length">>, <<"table:end-y">>>>,
   set_table_table_background |-> <<"attr", "one", <<"bool">>, <<"table:table-background">>>>,
   set_xml_id |-> <<"attr", "one", <<"str">>, <<"xml:id">>>>]
Rows_image ==
  [set_draw_filter_name |-> <<"attr", "one", <<"str">>, <<"draw:filter-name">>>>,
   set_draw_mime_type |-> <<"attr", "one", <<"str">>, <<"draw:mime-type">>>>,
   set_xlink_actuate |-> <<"attr", "one", <<"XLinkActuate">>, <<"xlink:actuate">>>>,
   set_xlink_href |-> <<"attr", "one", <<"str">>, <<"xlink:href">>>>,
   set_xlink_show |-> <<"attr", "one", <<"XLinkShow">>, <<"xlink:show">>>>,
   set_xlink_type |-> <<"attr", "one", <<"XLinkType">>, <<"xlink:type">>>>,
   set_xml_id |-> <<"attr", "one", <<"str">>, <<"xml:id">>>>]
Rows_fbool ==
  [set_locale |-> <<"attr", "locale", <<"Locale">>, <<"number:language", "number:country", "number:script">>>>,
   set_title |-> <<"attr", "one", <<"str">>, <<"number:title">>>>,
   set_transliteration_locale |-> <<"attr", "locale", <<"Locale">>, <<"number:transliteration-language", "number:transliteration-country">>>>,
   set_transliteration_format |-> <<"attr", "one", <<"char">>, <<"number:transliteration-format">>>>,
   set_transliteration_style |-> <<"attr", "one", <<"TransliterationStyle">>, <<"number:transliteration-style">>>>,
   set_display_name |-> <<"attr", "one", <<"str">>, <<"style:display-name">>>>,
   set_volatile |-> <<"attr", "one", <<"bool">>, <<"style:volatile">>>>,
   set_background_color |-> <<"textstyle", "one", <<"Rgb">>, <<"fo:background-color">>>>,
   set_color |-> <<"textstyle", "one", <<"Rgb">>, <<"fo:color">>>>,
   set_font_name |-> <<"textstyle", "one", <<"str">>, <<"style:font-name">>>>,
   set_font_size |-> <<"textstyle", "one", <<"FontSize">>, <<"fo:font-size">>>>,
   set_font_size_rel |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-rel">>>>,
   set_font_style |-> <<"textstyle", "one", <<"FontStyle">>, <<"fo:font-style">>>>,
   set_font_italic |-> <<"textstyle", "italic", <<>>, <<"fo:font-style">>>>,
   set_font_weight |-> <<"textstyle", "one", <<"FontWeight">>, <<"fo:font-weight">>>>,
   set_font_bold |-> <<"textstyle", "bold", <<>>, <<"fo:font-weight">>>>,
   set_font_variant |-> <<"textstyle", "one", <<"FontVariant">>, <<"fo:font-variant">>>>,
   set_font_attr |-> <<"textstyle", "fontattr", <<"FontSize", "bool", "bool">>, <<"fo:font-size", "fo:font-weight", "fo:font-style">>>>,
   set_locale_asian |-> <<"textstyle", "locale", <<"Locale">>, <<"style:language-asian", "style:country-asian", "style:script-asian">>>>,
   set_font_name_asian |-> <<"textstyle", "one", <<"str">>, <<"style:font-name-asian">>>>,
   set_font_size_asian |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-asian">>>>,
   set_font_size_rel_asian |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-rel-asian">>>>,
   set_font_style_asian |-> <<"textstyle", "one", <<"FontStyle">>, <<"style:font-style-asian">>>>,
   set_font_italic_asian |-> <<"textstyle", "italic", <<>>, <<"style:font-style-asian">>>>,
   set_font_weight_asian |-> <<"textstyle", "one", <<"FontWeight">>, <<"style:font-weight-asian">>>>,
   set_font_bold_asian |-> <<"textstyle", "bold", <<>>, <<"style:font-weight-asian">>>>,
   set_font_attr_asian |-> <<"textstyle", "fontattr", <<"FontSize", "bool", "bool">>, <<"style:font-size-asian", "style:font-weight-asian", "style:font-style-asian">>>>,
   set_locale_complex |-> <<"textstyle", "locale", <<"Locale">>, <<"style:language-complex", "style:country-complex", "style:script-complex">>>>,
   set_font_name_complex |-> <<"textstyle", "one", <<"str">>, <<"style:font-name-complex">>>>,
   set_font_size_complex |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-complex">>>>,
   set_font_size_rel_complex |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-rel-complex">>>>,
   set_font_style_complex |-> <<"textstyle", "one", <<"FontStyle">>, <<"style:font-style-complex">>>>,
   set_font_italic_complex |-> <<"textstyle", "italic", <<>>, <<"style:font-style-complex">>>>,
   set_font_weight_complex |-> <<"textstyle", "one", <<"FontWeight">>, <<"style:font-weight-complex">>>>,
   set_font_bold_complex |-> <<"textstyle", "bold", <<>>, <<"style:font-weight-complex">>>>,
   set_font_attr_complex |-> <<"textstyle", "fontattr", <<"FontSize", "bool", "bool">>, <<"style:font-size-complex", "style:font-weight-complex", "style:font-style-complex">>>>,
   set_hyphenate |-> <<"textstyle", "one", <<"bool">>, <<"fo:hyphenate">>>>,
   set_hyphenation_push_char_count |-> <<"textstyle", "one", <<"u32">>, <<"fo:hyphenation-push-char-count">>>>,
   set_hyphenation_remain_char_count |-> <<"textstyle", "one", <<"u32">>, <<"fo:hyphenation-remain-char-count">>>>,
   set_letter_spacing |-> <<"textstyle", "one", <<"LetterSpacing">>, <<"fo:letter-spacing">>>>,
   set_text_shadow |-> <<"textstyle", "shadow", <<"Length", "Length", "?Length", "Rgb">>, <<"fo:text-shadow">>>>,
   set_text_transform |-> <<"textstyle", "one", <<"TextTransform">>, <<"fo:text-transform">>>>,
   set_font_relief |-> <<"textstyle", "one", <<"TextRelief">>, <<"style:font-relief">>>>,
   set_text_position |-> <<"textstyle", "pos", <<"TextPosition", "?Percent">>, <<"style:text-position">>>>,
   set_rotation_angle |-> <<"textstyle", "one", <<"Angle">>, <<"style:rotation-angle">>>>,
   set_rotation_scale |-> <<"textstyle", "one", <<"RotationScale">>, <<"style:text-rotation-scale">>>>,
   set_letter_kerning |-> <<"textstyle", "one", <<"bool">>, <<"style:letter-kerning">>>>,
   set_text_combine |-> <<"textstyle", "one", <<"TextCombine">>, <<"style:text-combine">>>>,
   set_text_combine_start_char |-> <<"textstyle", "one", <<"char">>, <<"style:text-combine-start-char">>>>,
   set_text_combine_end_char |-> <<"textstyle", "one", <<"char">>, <<"style:text-combine-end-char">>>>,
   set_text_emphasize |-> <<"textstyle", "emph", <<"TextEmphasize", "TextEmphasizePosition">>, <<"style:text-emphasize">>>>,
   set_text_line_through_color |-> <<"textstyle", "one", <<"Rgb">>, <<"style:text-line-through-color">>>>,
   set_text_line_through_mode |-> <<"textstyle", "one", <<"LineMode">>, <<"style:text-line-through-mode">>>>,
   set_text_line_through_style |-> <<"textstyle", "one", <<"LineStyle">>, <<"style:text-line-through-style">>>>,
   set_text_line_through_text |-> <<"textstyle", "one", <<"str">>, <<"style:text-line-through-text">>>>,
   set_text_line_through_text_style |-> <<"textstyle", "one", <<"TextStyleRef">>, <<"style:text-line-through-text-style">>>>,
   set_text_line_through_type |-> <<"textstyle", "one", <<"LineType">>, <<"style:text-line-through-type">>>>,
   set_text_line_through_width |-> <<"textstyle", "one", <<"LineWidth">>, <<"style:text-line-through-width">>>>,
   set_font_text_outline |-> <<"textstyle", "one", <<"bool">>, <<"style:text-outline">>>>,
   set_text_overline_color |-> <<"textstyle", "one", <<"Rgb">>, <<"style:text-overline-color">>>>,
   set_text_overline_mode |-> <<"textstyle", "one", <<"LineMode">>, <<"style:text-overline-mode">>>>,
   set_text_overline_style |-> <<"textstyle", "one", <<"LineStyle">>, <<"style:text-overline-style">>>>,
   set_text_overline_type |-> <<"textstyle", "one", <<"LineType">>, <<"style:text-overline-type">>>>,
   set_text_overline_width |-> <<"textstyle", "one", <<"LineWidth">>, <<"style:text-overline-width">>>>,
   set_text_underline_color |-> <<"textstyle", "one", <<"Rgb">>, <<"style:text-underline-color">>>>,
   set_text_underline_mode |-> <<"textstyle", "one", <<"LineMode">>, <<"style:text-underline-mode">>>>,
   set_text_underline_style |-> <<"textstyle", "one", <<"LineStyle">>, <<"style:text-underline-style">>>>,
   set_text_underline_type |-> <<"textstyle", "one", <<"LineType">>, <<"style:text-underline-type">>>>,
   set_text_underline_width |-> <<"textstyle", "one", <<"LineWidth">>, <<"style:text-underline-width">>>>,
   set_use_window_font_color |-> <<"textstyle", "one", <<"bool">>, <<"style:use-window-font-color">>>>,
   set_text_condition |-> <<"textstyle", "one", <<"TextCondition">>, <<"text:condition">>>>,
   set_display |-> <<"textstyle", "one", <<"TextDisplay">>, <<"text:display">>>>]
Rows_fnum ==
  [set_locale |-> <<"attr", "locale", <<"Locale">>, <<"number:language", "number:country", "number:script">>>>,
   set_title |-> <<"attr", "one", <<"str">>, <<"number:title">>>>,
   set_transliteration_locale |-> <<"attr", "locale", <<"Locale">>, <<"number:transliteration-language", "number:transliteration-country">>>>,
   set_transliteration_format |-> <<"attr", "one", <<"char">>, <<"number:transliteration-format">>>>,
   set_transliteration_style |-> <<"attr", "one", <<"TransliterationStyle">>, <<"number:transliteration-style">>>>,
   set_display_name |-> <<"attr", "one", <<"str">>, <<"style:display-name">>>>,
   set_volatile |-> <<"attr", "one", <<"bool">>, <<"style:volatile">>>>,
   set_background_color |-> <<"textstyle", "one", <<"Rgb">>, <<"fo:background-color">>>>,
   set_color |-> <<"textstyle", "one", <<"Rgb">>, <<"fo:color">>>>,
   set_font_name |-> <<"textstyle", "one", <<"str">>, <<"style:font-name">>>>,
   set_font_size |-> <<"textstyle", "one", <<"FontSize">>, <<"fo:font-size">>>>,
   set_font_size_rel |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-rel">>>>,
   set_font_style |-> <<"textstyle", "one", <<"FontStyle">>, <<"fo:font-style">>>>,
   set_font_italic |-> <<"textstyle", "italic", <<>>, <<"fo:font-style">>>>,
   set_font_weight |-> <<"textstyle", "one", <<"FontWeight">>, <<"fo:font-weight">>>>,
   set_font_bold |-> <<"textstyle", "bold", <<>>, <<"fo:font-weight">>>>,
   set_font_variant |-> <<"textstyle", "one", <<"FontVariant">>, <<"fo:font-variant">>>>,
   set_font_attr |-> <<"textstyle", "fontattr", <<"FontSize", "bool", "bool">>, <<"fo:font-size", "fo:font-weight", "fo:font-style">>>>,
   set_locale_asian |-> <<"textstyle", "locale", <<"Locale">>, <<"style:language-asian", "style:country-asian", "style:script-asian">>>>,
   set_font_name_asian |-> <<"textstyle", "one", <<"str">>, <<"style:font-name-asian">>>>,
   set_font_size_asian |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-asian">>>>,
   set_font_size_rel_asian |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-rel-asian">>>>,
   set_font_style_asian |-> <<"textstyle", "one", <<"FontStyle">>, <<"style:font-style-asian">>>>,
   set_font_italic_asian |-> <<"textstyle", "italic", <<>>, <<"style:font-style-asian">>>>,
   set_font_weight_asian |-> <<"textstyle", "one", <<"FontWeight">>, <<"style:font-weight-asian">>>>,
   set_font_bold_asian |-> <<"textstyle", "bold", <<>>, <<"style:font-weight-asian">>>>,
   set_font_attr_asian |-> <<"textstyle", "fontattr", <<"FontSize", "bool", "bool">>, <<"style:font-size-asian", "style:font-weight-asian", "style:font-style-asian">>>>,
   set_locale_complex |-> <<"textstyle", "locale", <<"Locale">>, <<"style:language-complex", "style:country-complex", "style:script-complex">>>>,
   set_font_name_complex |-> <<"textstyle", "one", <<"str">>, <<"style:font-name-complex">>>>,
   set_font_size_complex |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-complex">>>>,
   set_font_size_rel_complex |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-rel-complex">>>>,
   set_font_style_complex |-> <<"textstyle", "one", <<"FontStyle">>, <<"style:font-style-complex">>>>,
   set_font_italic_complex |-> <<"textstyle", "italic", <<>>, <<"style:font-style-complex">>>>,
   set_font_weight_complex |-> <<"textstyle", "one", <<"FontWeight">>, <<"style:font-weight-complex">>>>,
   set_font_bold_complex |-> <<"textstyle", "bold", <<>>, <<"style:font-weight-complex">>>>,
   set_font_attr_complex |-> <<"textstyle", "fontattr", <<"FontSize", "bool", "bool">>, <<"style:font-size-complex", "style:font-weight-complex", "style:font-style-complex">>>>,
   set_hyphenate |-> <<"textstyle", "one", <<"bool">>, <<"fo:hyphenate">>>>,
   set_hyphenation_push_char_count |-> <<"textstyle", "one", <<"u32">>, <<"fo:hyphenation-push-char-count">>>>,
   set_hyphenation_remain_char_count |-> <<"textstyle", "one", <<"u32">>, <<"fo:hyphenation-remain-char-count">>>>,
   set_letter_spacing |-> <<"textstyle", "one", <<"LetterSpacing">>, <<"fo:letter-spacing">>>>,
   set_text_shadow |-> <<"textstyle", "shadow", <<"Length", "Length", "?Length", "Rgb">>, <<"fo:text-shadow">>>>,
   set_text_transform |-> <<"textstyle", "one", <<"TextTransform">>, <<"fo:text-transform">>>>,
   set_font_relief |-> <<"textstyle", "one", <<"TextRelief">>, <<"style:font-relief">>>>,
   set_text_position |-> <<"textstyle", "pos", <<"TextPosition", "?Percent">>, <<"style:text-position">>>>,
   set_rotation_angle |-> <<"textstyle", "one", <<"Angle">>, <<"style:rotation-angle">>>>,
   set_rotation_scale |-> <<"textstyle", "one", <<"RotationScale">>, <<"style:text-rotation-scale">>>>,
   set_letter_kerning |-> <<"textstyle", "one", <<"bool">>, <<"style:letter-kerning">>>>,
   set_text_combine |-> <<"textstyle", "one", <<"TextCombine">>, <<"style:text-combine">>>>,
   set_text_combine_start_char |-> <<"textstyle", "one", <<"char">>, <<"style:text-combine-start-char">>>>,
   set_text_combine_end_char |-> <<"textstyle", "one", <<"char">>, <<"style:text-combine-end-char">>>>,
   set_text_emphasize |-> <<"textstyle", "emph", <<"TextEmphasize", "TextEmphasizePosition">>, <<"style:text-emphasize">>>>,
   set_text_line_through_color |-> <<"textstyle", "one", <<"Rgb">>, <<"style:text-line-through-color">>>>,
   set_text_line_through_mode |-> <<"textstyle", "one", <<"LineMode">>, <<"style:text-line-through-mode">>>>,
   set_text_line_through_style |-> <<"textstyle", "one", <<"LineStyle">>, <<"style:text-line-through-style">>>>,
   set_text_line_through_text |-> <<"textstyle", "one", <<"str">>, <<"style:text-line-through-text">>>>,
   set_text_line_through_text_style |-> <<"textstyle", "one", <<"TextStyleRef">>, <<"style:text-line-through-text-style">>>>,
   set_text_line_through_type |-> <<"textstyle", "one", <<"LineType">>, <<"style:text-line-through-type">>>>,
   set_text_line_through_width |-> <<"textstyle", "one", <<"LineWidth">>, <<"style:text-line-through-width">>>>,
   set_font_text_outline |-> <<"textstyle", "one", <<"bool">>, <<"style:text-outline">>>>,
   set_text_overline_color |-> <<"textstyle", "one", <<"Rgb">>, <<"style:text-overline-color">>>>,
   set_text_overline_mode |-> <<"textstyle", "one", <<"LineMode">>, <<"style:text-overline-mode">>>>,
   set_text_overline_style |-> <<"textstyle", "one", <<"LineStyle">>, <<"style:text-overline-style">>>>,
   set_text_overline_type |-> <<"textstyle", "one", <<"LineType">>, <<"style:text-overline-type">>>>,
   set_text_overline_width |-> <<"textstyle", "one", <<"LineWidth">>, <<"style:text-overline-width">>>>,
   set_text_underline_color |-> <<"textstyle", "one", <<"Rgb">>, <<"style:text-underline-color">>>>,
   set_text_underline_mode |-> <<"textstyle", "one", <<"LineMode">>, <<"style:text-underline-mode">>>>,
   set_text_underline_style |-> <<"textstyle", "one", <<"LineStyle">>, <<"style:text-underline-style">>>>,
   set_text_underline_type |-> <<"textstyle", "one", <<"LineType">>, <<"style:text-underline-type">>>>,
   set_text_underline_width |-> <<"textstyle", "one", <<"LineWidth">>, <<"style:text-underline-width">>>>,
   set_use_window_font_color |-> <<"textstyle", "one", <<"bool">>, <<"style:use-window-font-color">>>>,
   set_text_condition |-> <<"textstyle", "one", <<"TextCondition">>, <<"text:condition">>>>,
   set_display |-> <<"textstyle", "one", <<"TextDisplay">>, <<"text:display">>>>]
Rows_fperc ==
  [set_locale |-> <<"attr", "locale", <<"Locale">>, <<"number:language", "number:country", "number:script">>>>,
   set_title |-> <<"attr", "one", <<"str">>, <<"number:title">>>>,
   set_transliteration_locale |-> <<"attr", "locale", <<"Locale">>, <<"number:transliteration-language", "number:transliteration-country">>>>,
   set_transliteration_format |-> <<"attr", "one", <<"char">>, <<"number:transliteration-format">>>>,
   set_transliteration_style |-> <<"attr", "one", <<"TransliterationStyle">>, <<"number:transliteration-style">>>>,
   set_display_name |-> <<"attr", "one", <<"str">>, <<"style:display-name">>>>,
   set_volatile |-> <<"attr", "one", <<"bool">>, <<"style:volatile">>>>,
   set_background_color |-> <<"textstyle", "one", <<"Rgb">>, <<"fo:background-color">>>>,
   set_color |-> <<"textstyle", "one", <<"Rgb">>, <<"fo:color">>>>,
   set_font_name |-> <<"textstyle", "one", <<"str">>, <<"style:font-name">>>>,
   set_font_size |-> <<"textstyle", "one", <<"FontSize">>, <<"fo:font-size">>>>,
   set_font_size_rel |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-rel">>>>,
   set_font_style |-> <<"textstyle", "one", <<"FontStyle">>, <<"fo:font-style">>>>,
   set_font_italic |-> <<"textstyle", "italic", <<>>, <<"fo:font-style">>>>,
   set_font_weight |-> <<"textstyle", "one", <<"FontWeight">>, <<"fo:font-weight">>>>,
   set_font_bold |-> <<"textstyle", "bold", <<>>, <<"fo:font-weight">>>>,
   set_font_variant |-> <<"textstyle", "one", <<"FontVariant">>, <<"fo:font-variant">>>>,
   set_font_attr |-> <<"textstyle", "fontattr", <<"FontSize", "bool", "bool">>, <<"fo:font-size", "fo:font-weight", "fo:font-style">>>>,
   set_locale_asian |-> <<"textstyle", "locale", <<"Locale">>, <<"style:language-asian", "style:country-asian", "style:script-asian">>>>,
   set_font_name_asian |-> <<"textstyle", "one", <<"str">>, <<"style:font-name-asian">>>>,
   set_font_size_asian |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-asian">>>>,
   set_font_size_rel_asian |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-rel-asian">>>>,
   set_font_style_asian |-> <<"textstyle", "one", <<"FontStyle">>, <<"style:font-style-asian">>>>,
   set_font_italic_asian |-> <<"textstyle", "italic", <<>>, <<"style:font-style-asian">>>>,
   set_font_weight_asian |-> <<"textstyle", "one", <<"FontWeight">>, <<"style:font-weight-asian">>>>,
   set_font_bold_asian |-> <<"textstyle", "bold", <<>>, <<"style:font-weight-asian">>>>,
   set_font_attr_asian |-> <<"textstyle", "fontattr", <<"FontSize", "bool", "bool">>, <<"style:font-size-asian", "style:font-weight-asian", "style:font-style-asian">>>>,
   set_locale_complex |-> <<"textstyle", "locale", <<"Locale">>, <<"style:language-complex", "style:country-complex", "style:script-complex">>>>,
   set_font_name_complex |-> <<"textstyle", "one", <<"str">>, <<"style:font-name-complex">>>>,
   set_font_size_complex |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-complex">>>>,
   set_font_size_rel_complex |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-rel-complex">>>>,
   set_font_style_complex |-> <<"textstyle", "one", <<"FontStyle">>, <<"style:font-style-complex">>>>,
   set_font_italic_complex |-> <<"textstyle", "italic", <<>>, <<"style:font-style-complex">>>>,
   set_font_weight_complex |-> <<"textstyle", "one", <<"FontWeight">>, <<"style:font-weight-complex">>>>,
   set_font_bold_complex |-> <<"textstyle", "bold", <<>>, <<"style:font-weight-complex">>>>,
   set_font_attr_complex |-> <<"textstyle", "fontattr", <<"FontSize", "bool", "bool">>, <<"style:font-size-complex", "style:font-weight-complex", "style:font-style-complex">>>>,
   set_hyphenate |-> <<"textstyle", "one", <<"bool">>, <<"fo:hyphenate">>>>,
   set_hyphenation_push_char_count |-> <<"textstyle", "one", <<"u32">>, <<"fo:hyphenation-push-char-count">>>>,
   set_hyphenation_remain_char_count |-> <<"textstyle", "one", <<"u32">>, <<"fo:hyphenation-remain-char-count">>>>,
   set_letter_spacing |-> <<"textstyle", "one", <<"LetterSpacing">>, <<"fo:letter-spacing">>>>,
   set_text_shadow |-> <<"textstyle", "shadow", <<"Length", "Length", "?Length", "Rgb">>, <<"fo:text-shadow">>>>,
   set_text_transform |-> <<"textstyle", "one", <<"TextTransform">>, <<"fo:text-transform">>>>,
   set_font_relief |-> <<"textstyle", "one", <<"TextRelief">>, <<"style:font-relief">>>>,
   set_text_position |-> <<"textstyle", "pos", <<"TextPosition", "?Percent">>, <<"style:text-position">>>>,
   set_rotation_angle |-> <<"textstyle", "one", <<"Angle">>, <<"style:rotation-angle">>>>,
   set_rotation_scale |-> <<"textstyle", "one", <<"RotationScale">>, <<"style:text-rotation-scale">>>>,
   set_letter_kerning |-> <<"textstyle", "one", <<"bool">>, <<"style:letter-kerning">>>>,
   set_text_combine |-> <<"textstyle", "one", <<"TextCombine">>, <<"style:text-combine">>>>,
   set_text_combine_start_char |-> <<"textstyle", "one", <<"char">>, <<"style:text-combine-start-char">>>>,
   set_text_combine_end_char |-> <<"textstyle", "one", <<"char">>, <<"style:text-combine-end-char">>>>,
   set_text_emphasize |-> <<"textstyle", "emph", <<"TextEmphasize", "TextEmphasizePosition">>, <<"style:text-emphasize">>>>,
   set_text_line_through_color |-> <<"textstyle", "one", <<"Rgb">>, <<"style:text-line-through-color">>>>,
   set_text_line_through_mode |-> <<"textstyle", "one", <<"LineMode">>, <<"style:text-line-through-mode">>>>,
   set_text_line_through_style |-> <<"textstyle", "one", <<"LineStyle">>, <<"style:text-line-through-style">>>>,
   set_text_line_through_text |-> <<"textstyle", "one", <<"str">>, <<"style:text-line-through-text">>>>,
   set_text_line_through_text_style |-> <<"textstyle", "one", <<"TextStyleRef">>, <<"style:text-line-through-text-style">>>>,
   set_text_line_through_type |-> <<"textstyle", "one", <<"LineType">>, <<"style:text-line-through-type">>>>,
   set_text_line_through_width |-> <<"textstyle", "one", <<"LineWidth">>, <<"style:text-line-through-width">>>>,
   set_font_text_outline |-> <<"textstyle", "one", <<"bool">>, <<"style:text-outline">>>>,
   set_text_overline_color |-> <<"textstyle", "one", <<"Rgb">>, <<"style:text-overline-color">>>>,
   set_text_overline_mode |-> <<"textstyle", "one", <<"LineMode">>, <<"style:text-overline-mode">>>>,
   set_text_overline_style |-> <<"textstyle", "one", <<"LineStyle">>, <<"style:text-overline-style">>>>,
   set_text_overline_type |-> <<"textstyle", "one", <<"LineType">>, <<"style:text-overline-type">>>>,
   set_text_overline_width |-> <<"textstyle", "one", <<"LineWidth">>, <<"style:text-overline-width">>>>,
   set_text_underline_color |-> <<"textstyle", "one", <<"Rgb">>, <<"style:text-underline-color">>>>,
   set_text_underline_mode |-> <<"textstyle", "one", <<"LineMode">>, <<"style:text-underline-mode">>>>,
   set_text_underline_style |-> <<"textstyle", "one", <<"LineStyle">>, <<"style:text-underline-style">>>>,
   set_text_underline_type |-> <<"textstyle", "one", <<"LineType">>, <<"style:text-underline-type">>>>,
   set_text_underline_width |-> <<"textstyle", "one", <<"LineWidth">>, <<"style:text-underline-width">>>>,
   set_use_window_font_color |-> <<"textstyle", "one", <<"bool">>, <<"style:use-window-font-color">>>>,
   set_text_condition |-> <<"textstyle", "one", <<"TextCondition">>, <<"text:condition">>>>,
   set_display |-> <<"textstyle", "one", <<"TextDisplay">>, <<"text:display">>>>]
Rows_fcurr ==
  [set_automatic_order |-> <<"attr", "one", <<"bool">>, <<"number:automatic-order">>>>,
   set_locale |-> <<"attr", "locale", <<"Locale">>, <<"number:language", "number:country", "number:script">>>>,
   set_title |-> <<"attr", "one", <<"str">>, <<"number:title">>>>,
   set_transliteration_locale |-> <<"attr", "locale", <<"Locale">>, <<"number:transliteration-language", "number:transliteration-country">>>>,
   set_transliteration_format |-> <<"attr", "one", <<"char">>, <<"number:transliteration-format">>>>,
   set_transliteration_style |-> <<"attr", "one", <<"TransliterationStyle">>, <<"number:transliteration-style">>>>,
   set_display_name |-> <<"attr", "one", <<"str">>, <<"style:display-name">>>>,
   set_volatile |-> <<"attr", "one", <<"bool">>, <<"style:volatile">>>>,
   set_background_color |-> <<"textstyle", "one", <<"Rgb">>, <<"fo:background-color">>>>,
   set_color |-> <<"textstyle", "one", <<"Rgb">>, <<"fo:color">>>>,
   set_font_name |-> <<"textstyle", "one", <<"str">>, <<"style:font-name">>>>,
   set_font_size |-> <<"textstyle", "one", <<"FontSize">>, <<"fo:font-size">>>>,
   set_font_size_rel |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-rel">>>>,
   set_font_style |-> <<"textstyle", "one", <<"FontStyle">>, <<"fo:font-style">>>>,
   set_font_italic |-> <<"textstyle", "italic", <<>>, <<"fo:font-style">>>>,
   set_font_weight |-> <<"textstyle", "one", <<"FontWeight">>, <<"fo:font-weight">>>>,
   set_font_bold |-> <<"textstyle", "bold", <<>>, <<"fo:font-weight">>>>,
   set_font_variant |-> <<"textstyle", "one", <<"FontVariant">>, <<"fo:font-variant">>>>,
   set_font_attr |-> <<"textstyle", "fontattr", <<"FontSize", "bool", "bool">>, <<"fo:font-size", "fo:font-weight", "fo:font-style">>>>,
   set_locale_asian |-> <<"textstyle", "locale", <<"Locale">>, <<"style:language-asian", "style:country-asian", "style:script-asian">>>>,
   set_font_name_asian |-> <<"textstyle", "one", <<"str">>, <<"style:font-name-asian">>>>,
   set_font_size_asian |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-asian">>>>,
   set_font_size_rel_asian |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-rel-asian">>>>,
   set_font_style_asian |-> <<"textstyle", "one", <<"FontStyle">>, <<"style:font-style-asian">>>>,
   set_font_italic_asian |-> <<"textstyle", "italic", <<>>, <<"style:font-style-asian">>>>,
   set_font_weight_asian |-> <<"textstyle", "one", <<"FontWeight">>, <<"style:font-weight-asian">>>>,
   set_font_bold_asian |-> <<"textstyle", "bold", <<>>, <<"style:font-weight-asian">>>>,
   set_font_attr_asian |-> <<"textstyle", "fontattr", <<"FontSize", "bool", "bool">>, <<"style:font-size-asian", "style:font-weight-asian", "style:font-style-asian">>>>,
   set_locale_complex |-> <<"textstyle", "locale", <<"Locale">>, <<"style:language-complex", "style:country-complex", "style:script-complex">>>>,
   set_font_name_complex |-> <<"textstyle", "one", <<"str">>, <<"style:font-name-complex">>>>,
   set_font_size_complex |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-complex">>>>,
   set_font_size_rel_complex |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-rel-complex">>>>,
   set_font_style_complex |-> <<"textstyle", "one", <<"FontStyle">>, <<"style:font-style-complex">>>>,
   set_font_italic_complex |-> <<"textstyle", "italic", <<>>, <<"style:font-style-complex">>>>,
   set_font_weight_complex |-> <<"textstyle", "one", <<"FontWeight">>, <<"style:font-weight-complex">>>>,
   set_font_bold_complex |-> <<"textstyle", "bold", <<>>, <<"style:font-weight-complex">>>>,
   set_font_attr_complex |-> <<"textstyle", "fontattr", <<"FontSize", "bool", "bool">>, <<"style:font-size-complex", "style:font-weight-complex", "style:font-style-complex">>>>,
   set_hyphenate |-> <<"textstyle", "one", <<"bool">>, <<"fo:hyphenate">>>>,
   set_hyphenation_push_char_count |-> <<"textstyle", "one", <<"u32">>, <<"fo:hyphenation-push-char-count">>>>,
   set_hyphenation_remain_char_count |-> <<"textstyle", "one", <<"u32">>, <<"fo:hyphenation-remain-char-count">>>>,
   set_letter_spacing |-> <<"textstyle", "one", <<"LetterSpacing">>, <<"fo:letter-spacing">>>>,
   set_text_shadow |-> <<"textstyle", "shadow", <<"Length", "Length", "?Length", "Rgb">>, <<"fo:text-shadow">>>>,
   set_text_transform |-> <<"textstyle", "one", <<"TextTransform">>, <<"fo:text-transform">>>>,
   set_font_relief |-> <<"textstyle", "one", <<"TextRelief">>, <<"style:font-relief">>>>,
   set_text_position |-> <<"textstyle", "pos", <<"TextPosition", "?Percent">>, <<"style:text-position">>>>,
   set_rotation_angle |-> <<"textstyle", "one", <<"Angle">>, <<"style:rotation-angle">>>>,
   set_rotation_scale |-> <<"textstyle", "one", <<"RotationScale">>, <<"style:text-rotation-scale">>>>,
   set_letter_kerning |-> <<"textstyle", "one", <<"bool">>, <<"style:letter-kerning">>>>,
   set_text_combine |-> <<"textstyle", "one", <<"TextCombine">>, <<"style:text-combine">>>>,
   set_text_combine_start_char |-> <<"textstyle", "one", <<"char">>, <<"style:text-combine-start-char">>>>,
   set_text_combine_end_char |-> <<"textstyle", "one", <<"char">>, <<"style:text-combine-end-char">>>>,
   set_text_emphasize |-> <<"textstyle", "emph", <<"TextEmphasize", "TextEmphasizePosition">>, <<"style:text-emphasize">>>>,
   set_text_line_through_color |-> <<"textstyle", "one", <<"Rgb">>, <<"style:text-line-through-color">>>>,
   set_text_line_through_mode |-> <<"textstyle", "one", <<"LineMode">>, <<"style:text-line-through-mode">>>>,
   set_text_line_through_style |-> <<"textstyle", "one", <<"LineStyle">>, <<"style:text-line-through-style">>>>,
   set_text_line_through_text |-> <<"textstyle", "one", <<"str">>, <<"style:text-line-through-text">>>>,
   set_text_line_through_text_style |-> <<"textstyle", "one", <<"TextStyleRef">>, <<"style:text-line-through-text-style">>>>,
   set_text_line_through_type |-> <<"textstyle", "one", <<"LineType">>, <<"style:text-line-through-type">>>>,
   set_text_line_through_width |-> <<"textstyle", "one", <<"LineWidth">>, <<"style:text-line-through-width">>>>,
   set_font_text_outline |-> <<"textstyle", "one", <<"bool">>, <<"style:text-outline">>>>,
   set_text_overline_color |-> <<"textstyle", "one", <<"Rgb">>, <<"style:text-overline-color">>>>,
   set_text_overline_mode |-> <<"textstyle", "one", <<"LineMode">>, <<"style:text-overline-mode">>>>,
   set_text_overline_style |-> <<"textstyle", "one", <<"LineStyle">>, <<"style:text-overline-style">>>>,
   set_text_overline_type |-> <<"textstyle", "one", <<"LineType">>, <<"style:text-overline-type">>>>,
   set_text_overline_width |-> <<"textstyle", "one", <<"LineWidth">>, <<"style:text-overline-width">>>>,
   set_text_underline_color |-> <<"textstyle", "one", <<"Rgb">>, <<"style:text-underline-color">>>>,
   set_text_underline_mode |-> <<"textstyle", "one", <<"LineMode">>, <<"style:text-underline-mode">>>>,
   set_text_underline_style |-> <<"textstyle", "one", <<"LineStyle">>, <<"style:text-underline-style">>>>,
   set_text_underline_type |-> <<"textstyle", "one", <<"LineType">>, <<"style:text-underline-type">>>>,
   set_text_underline_width |-> <<"textstyle", "one", <<"LineWidth">>, <<"style:text-underline-width">>>>,
   set_use_window_font_color |-> <<"textstyle", "one", <<"bool">>, <<"style:use-window-font-color">>>>,
   set_text_condition |-> <<"textstyle", "one", <<"TextCondition">>, <<"text:condition">>>>,
   set_display |-> <<"textstyle", "one", <<"TextDisplay">>, <<"text:display">>>>]
Rows_ftext ==
  [set_locale |-> <<"attr", "locale", <<"Locale">>, <<"number:language", "number:country", "number:script">>>>,
   set_title |-> <<"attr", "one", <<"str">>, <<"number:title">>>>,
   set_transliteration_locale |-> <<"attr", "locale", <<"Locale">>, <<"number:transliteration-language", "number:transliteration-country">>>>,
   set_transliteration_format |-> <<"attr", "one", <<"char">>, <<"number:transliteration-format">>>>,
   set_transliteration_style |-> <<"attr", "one", <<"TransliterationStyle">>, <<"number:transliteration-style">>>>,
   set_display_name |-> <<"attr", "one", <<"str">>, <<"style:display-name">>>>,
   set_volatile |-> <<"attr", "one", <<"bool">>, <<"style:volatile">>>>,
   set_background_color |-> <<"textstyle", "one", <<"Rgb">>, <<"fo:background-color">>>>,
   set_color |-> <<"textstyle", "one", <<"Rgb">>, <<"fo:color">>>>,
   set_font_name |-> <<"textstyle", "one", <<"str">>, <<"style:font-name">>>>,
   set_font_size |-> <<"textstyle", "one", <<"FontSize">>, <<"fo:font-size">>>>,
   set_font_size_rel |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-rel">>>>,
   set_font_style |-> <<"textstyle", "one", <<"FontStyle">>, <<"fo:font-style">>>>,
   set_font_italic |-> <<"textstyle", "italic", <<>>, <<"fo:font-style">>>>,
   set_font_weight |-> <<"textstyle", "one", <<"FontWeight">>, <<"fo:font-weight">>>>,
   set_font_bold |-> <<"textstyle", "bold", <<>>, <<"fo:font-weight">>>>,
   set_font_variant |-> <<"textstyle", "one", <<"FontVariant">>, <<"fo:font-variant">>>>,
   set_font_attr |-> <<"textstyle", "fontattr", <<"FontSize", "bool", "bool">>, <<"fo:font-size", "fo:font-weight", "fo:font-style">>>>,
   set_locale_asian |-> <<"textstyle", "locale", <<"Locale">>, <<"style:language-asian", "style:country-asian", "style:script-asian">>>>,
   set_font_name_asian |-> <<"textstyle", "one", <<"str">>, <<"style:font-name-asian">>>>,
   set_font_size_asian |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-asian">>>>,
   set_font_size_rel_asian |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-rel-asian">>>>,
   set_font_style_asian |-> <<"textstyle", "one", <<"FontStyle">>, <<"style:font-style-asian">>>>,
   set_font_italic_asian |-> <<"textstyle", "italic", <<>>, <<"style:font-style-asian">>>>,
   set_font_weight_asian |-> <<"textstyle", "one", <<"FontWeight">>, <<"style:font-weight-asian">>>>,
   set_font_bold_asian |-> <<"textstyle", "bold", <<>>, <<"style:font-weight-asian">>>>,
   set_font_attr_asian |-> <<"textstyle", "fontattr", <<"FontSize", "bool", "bool">>, <<"style:font-size-asian", "style:font-weight-asian", "style:font-style-asian">>>>,
   set_locale_complex |-> <<"textstyle", "locale", <<"Locale">>, <<"style:language-complex", "style:country-complex", "style:script-complex">>>>,
   set_font_name_complex |-> <<"textstyle", "one", <<"str">>, <<"style:font-name-complex">>>>,
   set_font_size_complex |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-complex">>>>,
   set_font_size_rel_complex |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-rel-complex">>>>,
   set_font_style_complex |-> <<"textstyle", "one", <<"FontStyle">>, <<"style:font-style-complex">>>>,
   set_font_italic_complex |-> <<"textstyle", "italic", <<>>, <<"style:font-style-complex">>>>,
   set_font_weight_complex |-> <<"textstyle", "one", <<"FontWeight">>, <<"style:font-weight-complex">>>>,
   set_font_bold_complex |-> <<"textstyle", "bold", <<>>, <<"style:font-weight-complex">>>>,
   set_font_attr_complex |-> <<"textstyle", "fontattr", <<"FontSize", "bool", "bool">>, <<"style:font-size-complex", "style:font-weight-complex", "style:font-style-complex">>>>,
   set_hyphenate |-> <<"textstyle", "one", <<"bool">>, <<"fo:hyphenate">>>>,
   set_hyphenation_push_char_count |-> <<"textstyle", "one", <<"u32">>, <<"fo:hyphenation-push-char-count">>>>,
   set_hyphenation_remain_char_count |-> <<"textstyle", "one", <<"u32">>, <<"fo:hyphenation-remain-char-count">>>>,
   set_letter_spacing |-> <<"textstyle", "one", <<"LetterSpacing">>, <<"fo:letter-spacing">>>>,
   set_text_shadow |-> <<"textstyle", "shadow", <<"Length", "Length", "?Length", "Rgb">>, <<"fo:text-shadow">>>>,
   set_text_transform |-> <<"textstyle", "one", <<"TextTransform">>, <<"fo:text-transform">>>>,
   set_font_relief |-> <<"textstyle", "one", <<"TextRelief">>, <<"style:font-relief">>>>,
   set_text_position |-> <<"textstyle", "pos", <<"TextPosition", "?Percent">>, <<"style:text-position">>>>,
   set_rotation_angle |-> <<"textstyle", "one", <<"Angle">>, <<"style:rotation-angle">>>>,
   set_rotation_scale |-> <<"textstyle", "one", <<"RotationScale">>, <<"style:text-rotation-scale">>>>,
   set_letter_kerning |-> <<"textstyle", "one", <<"bool">>, <<"style:letter-kerning">>>>,
   set_text_combine |-> <<"textstyle", "one", <<"TextCombine">>, <<"style:text-combine">>>>,
   set_text_combine_start_char |-> <<"textstyle", "one", <<"char">>, <<"style:text-combine-start-char">>>>,
   set_text_combine_end_char |-> <<"textstyle", "one", <<"char">>, <<"style:text-combine-end-char">>>>,
   set_text_emphasize |-> <<"textstyle", "emph", <<"TextEmphasize", "TextEmphasizePosition">>, <<"style:text-emphasize">>>>,
   set_text_line_through_color |-> <<"textstyle", "one", <<"Rgb">>, <<"style:text-line-through-color">>>>,
   set_text_line_through_mode |-> <<"textstyle", "one", <<"LineMode">>, <<"style:text-line-through-mode">>>>,
   set_text_line_through_style |-> <<"textstyle", "one", <<"LineStyle">>, <<"style:text-line-through-style">>>>,
   set_text_line_through_text |-> <<"textstyle", "one", <<"str">>, <<"style:text-line-through-text">>>>,
   set_text_line_through_text_style |-> <<"textstyle", "one", <<"TextStyleRef">>, <<"style:text-line-through-text-style">>>>,
   set_text_line_through_type |-> <<"textstyle", "one", <<"LineType">>, <<"style:text-line-through-type">>>>,
   set_text_line_through_width |-> <<"textstyle", "one", <<"LineWidth">>, <<"style:text-line-through-width">>>>,
   set_font_text_outline |-> <<"textstyle", "one", <<"bool">>, <<"style:text-outline">>>>,
   set_text_overline_color |-> <<"textstyle", "one", <<"Rgb">>, <<"style:text-overline-color">>>>,
   set_text_overline_mode |-> <<"textstyle", "one", <<"LineMode">>, <<"style:text-overline-mode">>>>,
   set_text_overline_style |-> <<"textstyle", "one", <<"LineStyle">>, <<"style:text-overline-style">>>>,
   set_text_overline_type |-> <<"textstyle", "one", <<"LineType">>, <<"style:text-overline-type">>>>,
   set_text_overline_width |-> <<"textstyle", "one", <<"LineWidth">>, <<"style:text-overline-width">>>>,
   set_text_underline_color |-> <<"textstyle", "one", <<"Rgb">>, <<"style:text-underline-color">>>>,
   set_text_underline_mode |-> <<"textstyle", "one", <<"LineMode">>, <<"style:text-underline-mode">>>>,
   set_text_underline_style |-> <<"textstyle", "one", <<"LineStyle">>, <<"style:text-underline-style">>>>,
   set_text_underline_type |-> <<"textstyle", "one", <<"LineType">>, <<"style:text-underline-type">>>>,
   set_text_underline_width |-> <<"textstyle", "one", <<"LineWidth">>, <<"style:text-underline-width">>>>,
   set_use_window_font_color |-> <<"textstyle", "one", <<"bool">>, <<"style:use-window-font-color">>>>,
   set_text_condition |-> <<"textstyle", "one", <<"TextCondition">>, <<"text:condition">>>>,
   set_display |-> <<"textstyle", "one", <<"TextDisplay">>, <<"text:display">>>>]
Rows_fdate ==
  [set_automatic_order |-> <<"attr", "one", <<"bool">>, <<"number:automatic-order">>>>,
   set_format_source |-> <<"attr", "one", <<"FormatSource">>, <<"number:format-source">>>>,
   set_locale |-> <<"attr", "locale", <<"Locale">>, <<"number:language", "number:country", "number:script">>>>,
   set_title |-> <<"attr", "one", <<"str">>, <<"number:title">>>>,
   set_transliteration_locale |-> <<"attr", "locale", <<"Locale">>, <<"number:transliteration-language", "number:transliteration-country">>>>,
   set_transliteration_format |-> <<"attr", "one", <<"char">>, <<"number:transliteration-format">>>>,
   set_transliteration_style |-> <<"attr", "one", <<"TransliterationStyle">>, <<"number:transliteration-style">>>>,
   set_display_name |-> <<"attr", "one", <<"str">>, <<"style:display-name">>>>,
   set_volatile |-> <<"attr", "one", <<"bool">>, <<"style:volatile">>>>,
   set_background_color |-> <<"textstyle", "one", <<"Rgb">>, <<"fo:background-color">>>>,
   set_color |-> <<"textstyle", "one", <<"Rgb">>, <<"fo:color">>>>,
   set_font_name |-> <<"textstyle", "one", <<"str">>, <<"style:font-name">>>>,
   set_font_size |-> <<"textstyle", "one", <<"FontSize">>, <<"fo:font-size">>>>,
   set_font_size_rel |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-rel">>>>,
   set_font_style |-> <<"textstyle", "one", <<"FontStyle">>, <<"fo:font-style">>>>,
   set_font_italic |-> <<"textstyle", "italic", <<>>, <<"fo:font-style">>>>,
   set_font_weight |-> <<"textstyle", "one", <<"FontWeight">>, <<"fo:font-weight">>>>,
   set_font_bold |-> <<"textstyle", "bold", <<>>, <<"fo:font-weight">>>>,
   set_font_variant |-> <<"textstyle", "one", <<"FontVariant">>, <<"fo:font-variant">>>>,
   set_font_attr |-> <<"textstyle", "fontattr", <<"FontSize", "bool", "bool">>, <<"fo:font-size", "fo:font-weight", "fo:font-style">>>>,
   set_locale_asian |-> <<"textstyle", "locale", <<"Locale">>, <<"style:language-asian", "style:country-asian", "style:script-asian">>>>,
   set_font_name_asian |-> <<"textstyle", "one", <<"str">>, <<"style:font-name-asian">>>>,
   set_font_size_asian |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-asian">>>>,
   set_font_size_rel_asian |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-rel-asian">>>>,
   set_font_style_asian |-> <<"textstyle", "one", <<"FontStyle">>, <<"style:font-style-asian">>>>,
   set_font_italic_asian |-> <<"textstyle", "italic", <<>>, <<"style:font-style-asian">>>>,
   set_font_weight_asian |-> <<"textstyle", "one", <<"FontWeight">>, <<"style:font-weight-asian">>>>,
   set_font_bold_asian |-> <<"textstyle", "bold", <<>>, <<"style:font-weight-asian">>>>,
   set_font_attr_asian |-> <<"textstyle", "fontattr", <<"FontSize", "bool", "bool">>, <<"style:font-size-asian", "style:font-weight-asian", "style:font-style-asian">>>>,
   set_locale_complex |-> <<"textstyle", "locale", <<"Locale">>, <<"style:language-complex", "style:country-complex", "style:script-complex">>>>,
   set_font_name_complex |-> <<"textstyle", "one", <<"str">>, <<"style:font-name-complex">>>>,
   set_font_size_complex |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-complex">>>>,
   set_font_size_rel_complex |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-rel-complex">>>>,
   set_font_style_complex |-> <<"textstyle", "one", <<"FontStyle">>, <<"style:font-style-complex">>>>,
   set_font_italic_complex |-> <<"textstyle", "italic", <<>>, <<"style:font-style-complex">>>>,
   set_font_weight_complex |-> <<"textstyle", "one", <<"FontWeight">>, <<"style:font-weight-complex">>>>,
   set_font_bold_complex |-> <<"textstyle", "bold", <<>>, <<"style:font-weight-complex">>>>,
   set_font_attr_complex |-> <<"textstyle", "fontattr", <<"FontSize", "bool", "bool">>, <<"style:font-size-complex", "style:font-weight-complex", "style:font-style-complex">>>>,
   set_hyphenate |-> <<"textstyle", "one", <<"bool">>, <<"fo:hyphenate">>>>,
   set_hyphenation_push_char_count |-> <<"textstyle", "one", <<"u32">>, <<"fo:hyphenation-push-char-count">>>>,
   set_hyphenation_remain_char_count |-> <<"textstyle", "one", <<"u32">>, <<"fo:hyphenation-remain-char-count">>>>,
   set_letter_spacing |-> <<"textstyle", "one", <<"LetterSpacing">>, <<"fo:letter-spacing">>>>,
   set_text_shadow |-> <<"textstyle", "shadow", <<"Length", "Length", "?Length", "Rgb">>, <<"fo:text-shadow">>>>,
   set_text_transform |-> <<"textstyle", "one", <<"TextTransform">>, <<"fo:text-transform">>>>,
   set_font_relief |-> <<"textstyle", "one", <<"TextRelief">>, <<"style:font-relief">>>>,
   set_text_position |-> <<"textstyle", "pos", <<"TextPosition", "?Percent">>, <<"style:text-position">>>>,
   set_rotation_angle |-> <<"textstyle", "one", <<"Angle">>, <<"style:rotation-angle">>>>,
   set_rotation_scale |-> <<"textstyle", "one", <<"RotationScale">>, <<"style:text-rotation-scale">>>>,
   set_letter_kerning |-> <<"textstyle", "one", <<"bool">>, <<"style:letter-kerning">>>>,
   set_text_combine |-> <<"textstyle", "one", <<"TextCombine">>, <<"style:text-combine">>>>,
   set_text_combine_start_char |-> <<"textstyle", "one", <<"char">>, <<"style:text-combine-start-char">>>>,
   set_text_combine_end_char |-> <<"textstyle", "one", <<"char">>, <<"style:text-combine-end-char">>>>,
   set_text_emphasize |-> <<"textstyle", "emph", <<"TextEmphasize", "TextEmphasizePosition">>, <<"style:text-emphasize">>>>,
   set_text_line_through_color |-> <<"textstyle", "one", <<"Rgb">>, <<"style:text-line-through-color">>>>,
   set_text_line_through_mode |-> <<"textstyle", "one", <<"LineMode">>, <<"style:text-line-through-mode">>>>,
   set_text_line_through_style |-> <<"textstyle", "one", <<"LineStyle">>, <<"style:text-line-through-style">>>>,
   set_text_line_through_text |-> <<"textstyle", "one", <<"str">>, <<"style:text-line-through-text">>>>,
   set_text_line_through_text_style |-> <<"textstyle", "one", <<"TextStyleRef">>, <<"style:text-line-through-text-style">>>>,
   set_text_line_through_type |-> <<"textstyle", "one", <<"LineType">>, <<"style:text-line-through-type">>>>,
   set_text_line_through_width |-> <<"textstyle", "one", <<"LineWidth">>, <<"style:text-line-through-width">>>>,
   set_font_text_outline |-> <<"textstyle", "one", <<"bool">>, <<"style:text-outline">>>>,
   set_text_overline_color |-> <<"textstyle", "one", <<"Rgb">>, <<"style:text-overline-color">>>>,
   set_text_overline_mode |-> <<"textstyle", "one", <<"LineMode">>, <<"style:text-overline-mode">>>>,
   set_text_overline_style |-> <<"textstyle", "one", <<"LineStyle">>, <<"style:text-overline-style">>>>,
   set_text_overline_type |-> <<"textstyle", "one", <<"LineType">>, <<"style:text-overline-type">>>>,
   set_text_overline_width |-> <<"textstyle", "one", <<"LineWidth">>, <<"style:text-overline-width">>>>,
   set_text_underline_color |-> <<"textstyle", "one", <<"Rgb">>, <<"style:text-underline-color">>>>,
   set_text_underline_mode |-> <<"textstyle", "one", <<"LineMode">>, <<"style:text-underline-mode">>>>,
   set_text_underline_style |-> <<"textstyle", "one", <<"LineStyle">>, <<"style:text-underline-style">>>>,
   set_text_underline_type |-> <<"textstyle", "one", <<"LineType">>, <<"style:text-underline-type">>>>,
   set_text_underline_width |-> <<"textstyle", "one", <<"LineWidth">>, <<"style:text-underline-width">>>>,
   set_use_window_font_color |-> <<"textstyle", "one", <<"bool">>, <<"style:use-window-font-color">>>>,
   set_text_condition |-> <<"textstyle", "one", <<"TextCondition">>, <<"text:condition">>>>,
   set_display |-> <<"textstyle", "one", <<"TextDisplay">>, <<"text:display">>>>]
Rows_ftime ==
  [set_format_source |-> <<"attr", "one", <<"FormatSource">>, <<"number:format-source">>>>,
   set_truncate_on_overflow |-> <<"attr", "one", <<"bool">>, <<"number:truncate-on-overflow">>>>,
   set_locale |-> <<"attr", "locale", <<"Locale">>, <<"number:language", "number:country", "number:script">>>>,
   set_title |-> <<"attr", "one", <<"str">>, <<"number:title">>>>,
   set_transliteration_locale |-> <<"attr", "locale", <<"Locale">>, <<"number:transliteration-language", "number:transliteration-country">>>>,
   set_transliteration_format |-> <<"attr", "one", <<"char">>, <<"number:transliteration-format">>>>,
   set_transliteration_style |-> <<"attr", "one", <<"TransliterationStyle">>, <<"number:transliteration-style">>>>,
   set_display_name |-> <<"attr", "one", <<"str">>, <<"style:display-name">>>>,
   set_volatile |-> <<"attr", "one", <<"bool">>, <<"style:volatile">>>>,
   set_background_color |-> <<"textstyle", "one", <<"Rgb">>, <<"fo:background-color">>>>,
   set_color |-> <<"textstyle", "one", <<"Rgb">>, <<"fo:color">>>>,
   set_font_name |-> <<"textstyle", "one", <<"str">>, <<"style:font-name">>>>,
   set_font_size |-> <<"textstyle", "one", <<"FontSize">>, <<"fo:font-size">>>>,
   set_font_size_rel |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-rel">>>>,
   set_font_style |-> <<"textstyle", "one", <<"FontStyle">>, <<"fo:font-style">>>>,
   set_font_italic |-> <<"textstyle", "italic", <<>>, <<"fo:font-style">>>>,
   set_font_weight |-> <<"textstyle", "one", <<"FontWeight">>, <<"fo:font-weight">>>>,
   set_font_bold |-> <<"textstyle", "bold", <<>>, <<"fo:font-weight">>>>,
   set_font_variant |-> <<"textstyle", "one", <<"FontVariant">>, <<"fo:font-variant">>>>,
   set_font_attr |-> <<"textstyle", "fontattr", <<"FontSize", "bool", "bool">>, <<"fo:font-size", "fo:font-weight", "fo:font-style">>>>,
   set_locale_asian |-> <<"textstyle", "locale", <<"Locale">>, <<"style:language-asian", "style:country-asian", "style:script-asian">>>>,
   set_font_name_asian |-> <<"textstyle", "one", <<"str">>, <<"style:font-name-asian">>>>,
   set_font_size_asian |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-asian">>>>,
   set_font_size_rel_asian |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-rel-asian">>>>,
   set_font_style_asian |-> <<"textstyle", "one", <<"FontStyle">>, <<"style:font-style-asian">>>>,
   set_font_italic_asian |-> <<"textstyle", "italic", <<>>, <<"style:font-style-asian">>>>,
   set_font_weight_asian |-> <<"textstyle", "one", <<"FontWeight">>, <<"style:font-weight-asian">>>>,
   set_font_bold_asian |-> <<"textstyle", "bold", <<>>, <<"style:font-weight-asian">>>>,
   set_font_attr_asian |-> <<"textstyle", "fontattr", <<"FontSize", "bool", "bool">>, <<"style:font-size-asian", "style:font-weight-asian", "style:font-style-asian">>>>,
   set_locale_complex |-> <<"textstyle", "locale", <<"Locale">>, <<"style:language-complex", "style:country-complex", "style:script-complex">>>>,
   set_font_name_complex |-> <<"textstyle", "one", <<"str">>, <<"style:font-name-complex">>>>,
   set_font_size_complex |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-complex">>>>,
   set_font_size_rel_complex |-> <<"textstyle", "one", <<"FontSize">>, <<"style:font-size-rel-complex">>>>,
   set_font_style_complex |-> <<"textstyle", "one", <<"FontStyle">>, <<"style:font-style-complex">>>>,
   set_font_italic_complex |-> <<"textstyle", "italic", <<>>, <<"style:font-style-complex">>>>,
   set_font_weight_complex |-> <<"textstyle", "one", <<"FontWeight">>, <<"style:font-weight-complex">>>>,
   set_font_bold_complex |-> <<"textstyle", "bold", <<>>, <<"style:font-weight-complex">>>>,
   set_font_attr_complex |-> <<"textstyle", "fontattr", <<"FontSize", "bool", "bool">>, <<"style:font-size-complex", "style:font-weight-complex", "style:font-style-complex">>>>,
   set_hyphenate |-> <<"textstyle", "one", <<"bool">>, <<"fo:hyphenate">>>>,
   set_hyphenation_push_char_count |-> <<"textstyle", "one", <<"u32">>, <<"fo:hyphenation-push-char-count">>>>,
   set_hyphenation_remain_char_count |-> <<"textstyle", "one", <<"u32">>, <<"fo:hyphenation-remain-char-count">>>>,
   set_letter_spacing |-> <<"textstyle", "one", <<"LetterSpacing">>, <<"fo:letter-spacing">>>>,
   set_text_shadow |-> <<"textstyle", "shadow", <<"Length", "Length", "?Length", "Rgb">>, <<"fo:text-shadow">>>>,
   set_text_transform |-> <<"textstyle", "one", <<"TextTransform">>, <<"fo:text-transform">>>>,
   set_font_relief |-> <<"textstyle", "one", <<"TextRelief">>, <<"style:font-relief">>>>,
   set_text_position |-> <<"textstyle", "pos", <<"TextPosition", "?Percent">>, <<"style:text-position">>>>,
   set_rotation_angle |-> <<"textstyle", "one", <<"Angle">>, <<"style:rotation-angle">>>>,
   set_rotation_scale |-> <<"textstyle", "one", <<"RotationScale">>, <<"style:text-rotation-scale">>>>,
   set_letter_kerning |-> <<"textstyle", "one", <<"bool">>, <<"style:letter-kerning">>>>,
   set_text_combine |-> <<"textstyle", "one", <<"TextCombine">>, <<"style:text-combine">>>>,
   set_text_combine_start_char |-> <<"textstyle", "one", <<"char">>, <<"style:text-combine-start-char">>>>,
   set_text_combine_end_char |-> <<"textstyle", "one", <<"char">>, <<"style:text-combine-end-char">>>>,
   set_text_emphasize |-> <<"textstyle", "emph", <<"TextEmphasize", "TextEmphasizePosition">>, <<"style:text-emphasize">>>>,
   set_text_line_through_color |-> <<"textstyle", "one", <<"Rgb">>, <<"style:text-line-through-color">>>>,
   set_text_line_through_mode |-> <<"textstyle", "one", <<"LineMode">>, <<"style:text-line-through-mode">>>>,
   set_text_line_through_style |-> <<"textstyle", "one", <<"LineStyle">>, <<"style:text-line-through-style">>>>,
   set_text_line_through_text |-> <<"textstyle", "one", <<"str">>, <<"style:text-line-through-text">>>>,
   set_text_line_through_text_style |-> <<"textstyle", "one", <<"TextStyleRef">>, <<"style:text-line-through-text-style">>>>,
   set_text_line_through_type |-> <<"textstyle", "one", <<"LineType">>, <<"style:text-line-through-type">>>>,
   set_text_line_through_width |-> <<"textstyle", "one", <<"LineWidth">>, <<"style:text-line-through-width">>>>,
   set_font_text_outline |-> <<"textstyle", "one", <<"bool">>, <<"style:text-outline">>>>,
   set_text_overline_color |-> <<"textstyle", "one", <<"Rgb">>, <<"style:text-overline-color">>>>,
   set_text_overline_mode |-> <<"textstyle", "one", <<"LineMode">>, <<"style:text-overline-mode">>>>,
   set_text_overline_style |-> <<"textstyle", "one", <<"LineStyle">>, <<"style:text-overline-style">>>>,
   set_text_overline_type |-> <<"textstyle", "one", <<"LineType">>, <<"style:text-overline-type">>>>,
   set_text_overline_width |-> <<"textstyle", "one", <<"LineWidth">>, <<"style:text-overline-width">>>>,
   set_text_underline_color |-> <<"textstyle", "one", <<"Rgb">>, <<"style:text-underline-color">>>>,
   set_text_underline_mode |-> <<"textstyle", "one", <<"LineMode">>, <<"style:text-underline-mode">>>>,
   set_text_underline_style |-> <<"textstyle", "one", <<"LineStyle">>, <<"style:text-underline-style">>>>,
   set_text_underline_type |-> <<"textstyle", "one", <<"LineType">>, <<"style:text-underline-type">>>>,
   set_text_underline_width |-> <<"textstyle", "one", <<"LineWidth">>, <<"style:text-underline-width">>>>,
   set_use_window_font_color |-> <<"textstyle", "one", <<"bool">>, <<"style:use-window-font-color">>>>,
   set_text_condition |-> <<"textstyle", "one", <<"TextCondition">>, <<"text:condition">>>>,
   set_display |-> <<"textstyle", "one", <<"TextDisplay">>, <<"text:display">>>>]
Rows_h ==
  [class_names |-> <<"tag", "list", <<"[ParagraphStyleRef]">>, <<"text:class-names">>>>,
   condstyle_name |-> <<"tag", "one", <<"ParagraphStyleRef">>, <<"text:cond-style-name">>>>,
   id |-> <<"tag", "one", <<"str">>, <<"text:id">>>>,
   list_header |-> <<"tag", "one", <<"bool">>, <<"text:is-list-header">>>>,
   outline_level |-> <<"tag", "one", <<"u8">>, <<"text:outline-level">>>>,
   restart_numbering |-> <<"tag", "one", <<"bool">>, <<"text:restart-numbering">>>>,
   start_value |-> <<"tag", "one", <<"u8">>, <<"text:start-value">>>>,
   style_name |-> <<"tag", "one", <<"ParagraphStyleRef">>, <<"text:style-name">>>>,
   xml_id |-> <<"tag", "one", <<"str">>, <<"xml:id">>>>]
Rows_p ==
  [class_names |-> <<"tag", "list", <<"[ParagraphStyleRef]">>, <<"text:class-names">>>>,
   condstyle_name |-> <<"tag", "one", <<"ParagraphStyleRef">>, <<"text:cond-style-name">>>>,
   id |-> <<"tag", "one", <<"str">>, <<"text:id">>>>,
   style_name |-> <<"tag", "one", <<"ParagraphStyleRef">>, <<"text:style-name">>>>,
   xml_id |-> <<"tag", "one", <<"str">>, <<"xml:id">>>>]
Rows_span ==
  [class_names |-> <<"tag", "list", <<"[TextStyleRef]">>, <<"text:class-names">>>>,
   style_name |-> <<"tag", "one", <<"TextStyleRef">>, <<"text:style-name">>>>]
Rows_a ==
  [style_name |-> <<"tag", "one", <<"TextStyleRef">>, <<"text:style-name">>>>,
   visited_style_name |-> <<"tag", "one", <<"TextStyleRef">>, <<"text:visited-style-name">>>>,
   href |-> <<"tag", "one", <<"str">>, <<"xlink:href">>>>]
Rows_s ==
  [count |-> <<"tag", "one", <<"u32">>, <<"text:c">>>>]
Rows_tabtag ==
  [tab_ref |-> <<"tag", "one", <<"u32">>, <<"text:tab-ref">>>>]
RowsOf ==
  [cell |-> Rows_cell,
   col |-> Rows_col,
   row |-> Rows_row,
   table |-> Rows_table,
   para |-> Rows_para,
   text |-> Rows_text,
   ruby |-> Rows_ruby,
   graphic |-> Rows_graphic,
   font |-> Rows_font,
   page |-> Rows_page,
   tab |-> Rows_tab,
   annot |-> Rows_annot,
   frame |-> Rows_frame,
   image |-> Rows_image,
   fbool |-> Rows_fbool,
   fnum |-> Rows_fnum,
   fperc |-> Rows_fperc,
   fcurr |-> Rows_fcurr,
   ftext |-> Rows_ftext,
   fdate |-> Rows_fdate,
   ftime |-> Rows_ftime,
   h |-> Rows_h,
   p |-> Rows_p,
   span |-> Rows_span,
   a |-> Rows_a,
   s |-> Rows_s,
   tabtag |-> Rows_tabtag]
\* getters: <<name, part, attributes>>
GettersOf ==
  [cell |-> <<>>,
   col |-> <<<<"col_width", "colstyle", <<"style:column-width">>>>, <<"use_optimal_col_width", "colstyle", <<"style:use-optimal-column-width">>>>>>,
   row |-> <<<<"row_height", "rowstyle", <<"style:row-height">>>>, <<"use_optimal_row_height", "rowstyle", <<"style:use-optimal-row-height">>>>>>,
   table |-> <<>>,
   para |-> <<>>,
   text |-> <<>>,
   ruby |-> <<>>,
   graphic |-> <<>>,
   font |-> <<>>,
   page |-> <<<<"page_usage", "usage", <<"style:page-usage">>>>>>,
   tab |-> <<>>,
   annot |-> <<>>,
   frame |-> <<>>,
   image |-> <<>>,
   fbool |-> <<<<"locale", "attr", <<"number:language", "number:script", "number:country">>>>, <<"transliteration_locale", "attr", <<"number:transliteration-language", "none", "number:transliteration-country">>>>, <<"title", "attr", <<"number:title">>>>, <<"transliteration_format", "attr", <<"number:transliteration-format">>>>, <<"transliteration_style", "attr", <<"number:transliteration-style">>>>, <<"volatile", "attr", <<"style:volatile">>>>>>,
   fnum |-> <<<<"locale", "attr", <<"number:language", "number:script", "number:country">>>>, <<"transliteration_locale", "attr", <<"number:transliteration-language", "none", "number:transliteration-country">>>>, <<"title", "attr", <<"number:title">>>>, <<"transliteration_format", "attr", <<"number:transliteration-format">>>>, <<"transliteration_style", "attr", <<"number:transliteration-style">>>>, <<"volatile", "attr", <<"style:volatile">>>>>>,
   fperc |-> <<<<"locale", "attr", <<"number:language", "number:script", "number:country">>>>, <<"transliteration_locale", "attr", <<"number:transliteration-language", "none", "number:transliteration-country">>>>, <<"title", "attr", <<"number:title">>>>, <<"transliteration_format", "attr", <<"number:transliteration-format">>>>, <<"transliteration_style", "attr", <<"number:transliteration-style">>>>, <<"volatile", "attr", <<"style:volatile">>>>>>,
   fcurr |-> <<<<"locale", "attr", <<"number:language", "number:script", "number:country">>>>, <<"transliteration_locale", "attr", <<"number:transliteration-language", "none", "number:transliteration-country">>>>, <<"title", "attr", <<"number:title">>>>, <<"transliteration_format", "attr", <<"number:transliteration-format">>>>, <<"transliteration_style", "attr", <<"number:transliteration-style">>>>, <<"volatile", "attr", <<"style:volatile">>>>, <<"automatic_order", "attr", <<"number:automatic-order">>>>>>,
   ftext |-> <<<<"locale", "attr", <<"number:language", "number:script", "number:country">>>>, <<"transliteration_locale", "attr", <<"number:transliteration-language", "none", "number:transliteration-country">>>>, <<"title", "attr", <<"number:title">>>>, <<"transliteration_format", "attr", <<"number:transliteration-format">>>>, <<"transliteration_style", "attr", <<"number:transliteration-style">>>>, <<"volatile", "attr", <<"style:volatile">>>>>>,
   fdate |-> <<<<"locale", "attr", <<"number:language", "number:script", "number:country">>>>, <<"transliteration_locale", "attr", <<"number:transliteration-language", "none", "number:transliteration-country">>>>, <<"title", "attr", <<"number:title">>>>, <<"transliteration_format", "attr", <<"number:transliteration-format">>>>, <<"transliteration_style", "attr", <<"number:transliteration-style">>>>, <<"volatile", "attr", <<"style:volatile">>>>, <<"automatic_order", "attr", <<"number:automatic-order">>>>, <<"format_source", "attr", <<"number:format-source">>>>>>,
   ftime |-> <<<<"locale", "attr", <<"number:language", "number:script", "number:country">>>>, <<"transliteration_locale", "attr", <<"number:transliteration-language", "none", "number:transliteration-country">>>>, <<"title", "attr", <<"number:title">>>>, <<"transliteration_format", "attr", <<"number:transliteration-format">>>>, <<"transliteration_style", "attr", <<"number:transliteration-style">>>>, <<"volatile", "attr", <<"style:volatile">>>>, <<"format_source", "attr", <<"number:format-source">>>>, <<"truncate_on_overflow", "attr", <<"number:truncate-on-overflow">>>>>>,
   h |-> <<>>,
   p |-> <<>>,
   span |-> <<>>,
   a |-> <<>>,
   s |-> <<>>,
   tabtag |-> <<>>]
\* builders of format parts: <<element, [option -> <<pattern, argument types, attributes>>]>>
PartsOf ==
  [number |-> <<"number:number", [decimal_places |-> <<"one", <<"u8">>, <<"number:decimal-places">>>>, fixed_decimal_places |-> <<"both", <<"u8">>, <<"number:decimal-places", "number:min-decimal-places">>>>, grouping |-> <<"const:true", <<>>, <<"number:grouping">>>>, min_decimal_places |-> <<"one", <<"u8">>, <<"number:min-decimal-places">>>>, min_integer_digits |-> <<"one", <<"u8">>, <<"number:min-integer-digits">>>>, display_factor |-> <<"one", <<"f64">>, <<"number:display-factor">>>>, decimal_replacement |-> <<"one", <<"char">>, <<"number:decimal-replacement">>>>, embedded_text |-> <<"embed", <<"str", "i32">>, <<"number:position">>>>]>>,
   fill_character |-> <<"number:fill-character", [fill_char |-> <<"content", <<"char">>, <<>>>>]>>,
   scientific |-> <<"number:scientific-number", [decimal_places |-> <<"one", <<"u8">>, <<"number:decimal-places">>>>, expontent_interval |-> <<"one", <<"u8">>, <<"number:exponent-interval">>>>, forced_exponent_sign |-> <<"one", <<"bool">>, <<"number:forced-exponent-sign">>>>, grouping |-> <<"const:true", <<>>, <<"number:grouping">>>>, min_decimal_places |-> <<"one", <<"u8">>, <<"number:min-decimal-places">>>>, min_exponent_digits |-> <<"one", <<"u8">>, <<"number:min-exponent-digits">>>>, min_integer_digits |-> <<"one", <<"u8">>, <<"number:min-integer-digits">>>>]>>,
   fraction |-> <<"number:fraction", [denominator |-> <<"one", <<"i64">>, <<"number:denominator-value">>>>, grouping |-> <<"const:true", <<>>, <<"number:grouping">>>>, max_denominator |-> <<"one", <<"i64">>, <<"number:max-denominator-value">>>>, min_denominator_digits |-> <<"one", <<"u8">>, <<"number:min-denominator-digits">>>>, min_integer_digits |-> <<"one", <<"u8">>, <<"number:min-integer-digits">>>>, min_numerator_digits |-> <<"one", <<"u8">>, <<"number:min-numerator-digits">>>>]>>,
   currency |-> <<"number:currency-symbol", [locale |-> <<"part-locale", <<"Locale">>, <<"number:language", "number:country", "number:script">>>>, symbol |-> <<"content", <<"str">>, <<>>>>]>>,
   day |-> <<"number:day", [long_style |-> <<"const:long", <<>>, <<"number:style">>>>, short_style |-> <<"const:short", <<>>, <<"number:style">>>>, style |-> <<"one", <<"FormatNumberStyle">>, <<"number:style">>>>, calendar |-> <<"one", <<"FormatCalendarStyle">>, <<"number:calendar">>>>]>>,
   year |-> <<"number:year", [long_style |-> <<"const:long", <<>>, <<"number:style">>>>, short_style |-> <<"const:short", <<>>, <<"number:style">>>>, style |-> <<"one", <<"FormatNumberStyle">>, <<"number:style">>>>, calendar |-> <<"one", <<"FormatCalendarStyle">>, <<"number:calendar">>>>]>>,
   era |-> <<"number:era", [long_style |-> <<"const:long", <<>>, <<"number:style">>>>, short_style |-> <<"const:short", <<>>, <<"number:style">>>>, style |-> <<"one", <<"FormatNumberStyle">>, <<"number:style">>>>, calendar |-> <<"one", <<"FormatCalendarStyle">>, <<"number:calendar">>>>]>>,
   month |-> <<"number:month", [long_style |-> <<"const:long", <<>>, <<"number:style">>>>, short_style |-> <<"const:short", <<>>, <<"number:style">>>>, style |-> <<"one", <<"FormatNumberStyle">>, <<"number:style">>>>, calendar |-> <<"one", <<"FormatCalendarStyle">>, <<"number:calendar">>>>, textual |-> <<"const:true", <<>>, <<"number:textual">>>>, possessive_form |-> <<"const:true", <<>>, <<"number:possessive-form">>>>]>>,
   day_of_week |-> <<"number:day-of-week", [long_style |-> <<"const:long", <<>>, <<"number:style">>>>, short_style |-> <<"const:short", <<>>, <<"number:style">>>>, style |-> <<"one", <<"FormatNumberStyle">>, <<"number:style">>>>, calendar |-> <<"one", <<"FormatCalendarStyle">>, <<"number:calendar">>>>]>>,
   week_of_year |-> <<"number:week-of-year", [calendar |-> <<"one", <<"FormatCalendarStyle">>, <<"number:calendar">>>>]>>,
   quarter |-> <<"number:quarter", [long_style |-> <<"const:long", <<>>, <<"number:style">>>>, short_style |-> <<"const:short", <<>>, <<"number:style">>>>, style |-> <<"one", <<"FormatNumberStyle">>, <<"number:style">>>>, calendar |-> <<"one", <<"FormatCalendarStyle">>, <<"number:calendar">>>>]>>,
   hours |-> <<"number:hours", [long_style |-> <<"const:long", <<>>, <<"number:style">>>>, short_style |-> <<"const:short", <<>>, <<"number:style">>>>, style |-> <<"one", <<"FormatNumberStyle">>, <<"number:style">>>>]>>,
   minutes |-> <<"number:minutes", [long_style |-> <<"const:long", <<>>, <<"number:style">>>>, short_style |-> <<"const:short", <<>>, <<"number:style">>>>, style |-> <<"one", <<"FormatNumberStyle">>, <<"number:style">>>>]>>,
   seconds |-> <<"number:seconds", [long_style |-> <<"const:long", <<>>, <<"number:style">>>>, short_style |-> <<"const:short", <<>>, <<"number:style">>>>, style |-> <<"one", <<"FormatNumberStyle">>, <<"number:style">>>>, decimal_places |-> <<"one", <<"u8">>, <<"number:decimal-places">>>>]>>,
   am_pm |-> <<"number:am-pm", [none |-> <<>>]>>,
   boolean |-> <<"number:boolean", [none |-> <<>>]>>,
   text |-> <<"number:text", [text |-> <<"content", <<"str">>, <<>>>>]>>,
   text_content |-> <<"number:text-content", [none |-> <<>>]>>]
\* builders of text elements: the element they make
TextTags ==
  [TextH |-> "text:h",
   TextP |-> "text:p",
   TextSpan |-> "text:span",
   TextA |-> "text:a",
   TextS |-> "text:s",
   TextTab |-> "text:tab",
   SoftPageBreak |-> "text:soft-page-break",
   MetaDate |-> "text:date",
   MetaTime |-> "text:time",
   MetaPageNumber |-> "text:page-number",
   MetaAuthorName |-> "text:author-name",
   MetaAuthorInitials |-> "text:author-initials",
   MetaFileName |-> "text:file-name",
   MetaSheetName |-> "text:sheet-name",
   MetaInitialCreator |-> "text:initial-creator",
   MetaCreationDate |-> "text:creation-date",
   MetaCreationTime |-> "text:creation-time",
   MetaDescription |-> "text:description",
   MetaPrintTime |-> "text:print-time",
   MetaPrintDate |-> "text:print-date",
   MetaPrintedBy |-> "text:printed-by",
   MetaTitle |-> "text:title",
   MetaSubject |-> "text:subject",
   MetaKeywords |-> "text:keywords",
   MetaEditingCycles |-> "text:editing-cycles",
   MetaEditingDuration |-> "text:editing-duration",
   MetaModificationTime |-> "text:modification-time",
   MetaModificationDate |-> "text:modification-date",
   MetaCreator |-> "text:creator",
   MetaPageCount |-> "text:page-count",
   MetaCharacterCount |-> "text:character-count"]
=============================================================================
