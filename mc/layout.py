# -*- coding: utf-8 -*-
"""Independent description of the HWP v5 record payload layouts.

The tables below state, for every record type, the members in payload order:

    (name, type[, minimum version, condition])

types: u8 i8 u16 i16 u32 i32 f64 bstr chid chunks
       ('hex', n) ('struct', name) ('flags', base, [(field, lsb, msb, enum)])
       ('arr', n, type) ('narr', counttype, type)   ('xarr', count expr, type)
       ('select', expr, {key: type})

conditions and counts are expressions over v (values of the enclosing
struct), parent (resolved type of the parent record) and pv (its values).

They were transcribed once and reviewed against the format document; they do
not import anything from pyhwp.
"""
import struct

TAGS = {
    16: 'DocumentProperties',
    17: 'IdMappings',
    18: 'BinData',
    19: 'FaceName',
    20: 'BorderFill',
    21: 'CharShape',
    22: 'TabDef',
    23: 'Numbering',
    24: 'Bullet',
    25: 'ParaShape',
    26: 'Style',
    27: 'DocData',
    28: 'DistributeDocData',
    30: 'CompatibleDocument',
    31: 'LayoutCompatibility',
    32: 'TagModel32',
    66: 'Paragraph',
    67: 'ParaText',
    68: 'ParaCharShape',
    69: 'ParaLineSeg',
    70: 'ParaRangeTag',
    71: 'Control',
    72: 'ListHeader',
    73: 'PageDef',
    74: 'FootnoteShape',
    75: 'PageBorderFill',
    76: 'ShapeComponent',
    77: 'TableBody',
    78: 'ShapeLine',
    79: 'ShapeRectangle',
    80: 'ShapeEllipse',
    81: 'ShapeArc',
    82: 'ShapePolygon',
    83: 'ShapeCurve',
    84: 'ShapeOLE',
    85: 'ShapePicture',
    86: 'ShapeContainer',
    87: 'ControlData',
    88: 'EqEdit',
    90: 'ShapeTextArt',
    91: 'FormObject',
    92: 'MemoShape',
    93: 'MemoList',
    94: 'ForbiddenChar',
    95: 'ChartData',
    115: 'ShapeUnknown',
}

CONTROLS = {
    '%%*A': 'FieldRevisionLineAttach',
    '%%*C': 'FieldRevisionClipping',
    '%%*L': 'FieldRevisionLine',
    '%%*P': 'FieldRevisionPraise',
    '%%*S': 'FieldRevisionSawtooth',
    '%%*T': 'FieldRevisionThinking',
    '%%*a': 'FieldRevisionAttach',
    '%%*c': 'FieldRevisionSimpleChange',
    '%%*d': 'FieldRevisionDelete',
    '%%*e': 'FieldRevisionSimpleInsert',
    '%%*h': 'FieldRevisionHyperlink',
    '%%*i': 'FieldRevisionLineLink',
    '%%*l': 'FieldRevisionLeftMove',
    '%%*n': 'FieldRevisionTransfer',
    '%%*r': 'FieldRevisionRightMove',
    '%%*t': 'FieldRevisionLineTransfer',
    '%%me': 'FieldMemo',
    '%%mr': 'FieldRevisionChange',
    '%bmk': 'FieldBookmark',
    '%clk': 'FieldClickHere',
    '%cpr': 'FieldPrivateInfoSecurity',
    '%ddt': 'FieldDocDate',
    '%dte': 'FieldDate',
    '%fmu': 'FieldFormula',
    '%hlk': 'FieldHyperLink',
    '%mmg': 'FieldMailMerge',
    '%pat': 'FieldPath',
    '%sig': 'FieldRevisionSign',
    '%smr': 'FieldSummary',
    '%spl': 'FieldRevisionSplit',
    '%unk': 'FieldUnknown',
    '%usr': 'FieldUserInfo',
    '%xrf': 'FieldCrossRef',
    'atno': 'AutoNumbering',
    'bokm': 'BookmarkControl',
    'cold': 'ColumnsDef',
    'en  ': 'EndNote',
    'fn  ': 'FootNote',
    'foot': 'Footer',
    'gso ': 'GShapeObjectControl',
    'head': 'Header',
    'idxm': 'IndexMarker',
    'nwno': 'NewNumbering',
    'pgct': 'PageOddEven',
    'pghd': 'PageHide',
    'pgnp': 'PageNumberPosition',
    'secd': 'SectionDef',
    'tbl ': 'TableControl',
    'tcmt': 'HiddenComment',
    'tcps': 'TCPSControl',
    'tdut': 'Dutmal',
}

LISTS = {
    ('TableControl', False): 'TableCaption',
    ('TableControl', True): 'TableCell',
    ('GShapeObjectControl', False): 'GShapeObjectCaption',
    ('ShapeComponent', False): 'TextboxParagraphList',
    ('Header', False): 'HeaderParagraphList',
    ('Footer', False): 'FooterParagraphList',
}

CTRLDATA = {
    'BookmarkControl': 'BookmarkControlData',
    'FieldClickHere': 'FieldClickHereData',
    'SectionDef': 'SectionDefData',
}

BASES = {
    'FieldRevisionLineAttach': ['Control', 'Field'],
    'FieldRevisionClipping': ['Control', 'Field'],
    'FieldRevisionLine': ['Control', 'Field'],
    'FieldRevisionPraise': ['Control', 'Field'],
    'FieldRevisionSawtooth': ['Control', 'Field'],
    'FieldRevisionThinking': ['Control', 'Field'],
    'FieldRevisionAttach': ['Control', 'Field'],
    'FieldRevisionSimpleChange': ['Control', 'Field'],
    'FieldRevisionDelete': ['Control', 'Field'],
    'FieldRevisionSimpleInsert': ['Control', 'Field'],
    'FieldRevisionHyperlink': ['Control', 'Field'],
    'FieldRevisionLineLink': ['Control', 'Field'],
    'FieldRevisionLeftMove': ['Control', 'Field'],
    'FieldRevisionTransfer': ['Control', 'Field'],
    'FieldRevisionRightMove': ['Control', 'Field'],
    'FieldRevisionLineTransfer': ['Control', 'Field'],
    'FieldMemo': ['Control', 'Field'],
    'FieldRevisionChange': ['Control', 'Field'],
    'FieldBookmark': ['Control', 'Field'],
    'FieldClickHere': ['Control', 'Field'],
    'FieldPrivateInfoSecurity': ['Control', 'Field'],
    'FieldDocDate': ['Control', 'Field'],
    'FieldDate': ['Control', 'Field'],
    'FieldFormula': ['Control', 'Field'],
    'FieldHyperLink': ['Control', 'Field'],
    'FieldMailMerge': ['Control', 'Field'],
    'FieldPath': ['Control', 'Field'],
    'FieldRevisionSign': ['Control', 'Field'],
    'FieldSummary': ['Control', 'Field'],
    'FieldRevisionSplit': ['Control', 'Field'],
    'FieldUnknown': ['Control', 'Field'],
    'FieldUserInfo': ['Control', 'Field'],
    'FieldCrossRef': ['Control', 'Field'],
    'AutoNumbering': ['Control', 'NumberingControl', 'AutoNumbering'],
    'BookmarkControl': ['Control', 'BookmarkControl'],
    'ColumnsDef': ['Control', 'ColumnsDef'],
    'EndNote': ['Control', 'Note'],
    'FootNote': ['Control', 'Note'],
    'Footer': ['Control', 'HeaderFooter'],
    'GShapeObjectControl': ['Control', 'CommonControl'],
    'Header': ['Control', 'HeaderFooter'],
    'IndexMarker': ['Control', 'IndexMarker'],
    'NewNumbering': ['Control', 'NumberingControl'],
    'PageOddEven': ['Control', 'PageOddEven'],
    'PageHide': ['Control', 'PageHide'],
    'PageNumberPosition': ['Control', 'PageNumberPosition'],
    'SectionDef': ['Control', 'SectionDef'],
    'TableControl': ['Control', 'CommonControl'],
    'HiddenComment': ['Control', 'HiddenComment'],
    'TCPSControl': ['Control', 'TCPSControl'],
    'Dutmal': ['Control', 'Dutmal'],
    'CommonControl': ['Control', 'CommonControl'],
    'Field': ['Control', 'Field'],
    'Note': ['Control', 'Note'],
    'HeaderFooter': ['Control', 'HeaderFooter'],
    'TableCaption': ['ListHeader', 'TableCaption'],
    'TableCell': ['ListHeader', 'TableCell'],
    'GShapeObjectCaption': ['ListHeader', 'TableCaption'],
    'TextboxParagraphList': ['ListHeader', 'TextboxParagraphList'],
    'HeaderParagraphList': ['ListHeader', 'HeaderFooterParagraphList'],
    'FooterParagraphList': ['ListHeader', 'HeaderFooterParagraphList'],
    'NumberingControl': ['Control', 'NumberingControl'],
    'HeaderFooterParagraphList': ['ListHeader', 'HeaderFooterParagraphList'],
}

STRUCTS = {
    'DocumentProperties': [
        ('section_count', 'u16'),
        ('page_startnum', 'u16'),
        ('footnote_startnum', 'u16'),
        ('endnote_startnum', 'u16'),
        ('picture_startnum', 'u16'),
        ('table_startnum', 'u16'),
        ('math_startnum', 'u16'),
        ('list_id', 'u32'),
        ('paragraph_id', 'u32'),
        ('character_unit_loc_in_paragraph', 'u32'),
    ],
    'IdMappings': [
        ('bindata', 'u32'),
        ('ko_fonts', 'u32'),
        ('en_fonts', 'u32'),
        ('cn_fonts', 'u32'),
        ('jp_fonts', 'u32'),
        ('other_fonts', 'u32'),
        ('symbol_fonts', 'u32'),
        ('user_fonts', 'u32'),
        ('borderfills', 'u32'),
        ('charshapes', 'u32'),
        ('tabdefs', 'u32'),
        ('numberings', 'u32'),
        ('bullets', 'u32'),
        ('parashapes', 'u32'),
        ('styles', 'u32'),
        ('memoshapes', 'u32', (5, 0, 1, 7), None),
    ],
    'BinDataLink': [
        ('abspath', 'bstr'),
        ('relpath', 'bstr'),
    ],
    'BinDataEmbedding': [
        ('storage_id', 'u16'),
        ('ext', 'bstr'),
    ],
    'BinDataStorage': [
        ('storage_id', 'u16'),
    ],
    'BinData': [
        ('flags', ('flags', 'u16', [('storage', 0, 3, {0: 'LINK', 1: 'EMBEDDING', 2: 'STORAGE'}), ('compression', 4, 5, {0: 'STORAGE_DEFAULT', 1: 'YES', 2: 'NO'}), ('access', 8, 9, {0: 'NEVER', 1: 'OK', 2: 'FAILED', 3: 'FAILED_IGNORED'})])),
        ('bindata', ('select', "v['flags'] & 0xf", {0: ('struct', 'BinDataLink'), 1: ('struct', 'BinDataEmbedding'), 2: ('struct', 'BinDataStorage')})),
    ],
    'AlternateFont': [
        ('kind', 'u8'),
        ('name', 'bstr'),
    ],
    'Panose1': [
        ('family_type', 'u8'),
        ('serif_style', 'u8'),
        ('weight', 'u8'),
        ('proportion', 'u8'),
        ('contrast', 'u8'),
        ('stroke_variation', 'u8'),
        ('arm_style', 'u8'),
        ('letterform', 'u8'),
        ('midline', 'u8'),
        ('x_height', 'u8'),
    ],
    'FaceName': [
        ('flags', ('flags', 'u8', [('font_file_type', 0, 1, {0: 'UNKNOWN', 1: 'TTF', 2: 'HFT'}), ('default', 5, 5, None), ('metric', 6, 6, None), ('alternate', 7, 7, None)])),
        ('name', 'bstr'),
        ('alternate_font', ('struct', 'AlternateFont'), None, "v['flags'] >> 7 & 1"),
        ('panose1', ('struct', 'Panose1'), None, "v['flags'] >> 6 & 1"),
        ('default_font', 'bstr', None, "v['flags'] >> 5 & 1"),
    ],
    'Border': [
        ('stroke_flags', ('flags', 'u8', [('stroke_type', 0, 4, {0: 'none', 1: 'solid', 2: 'dashed', 3: 'dotted', 4: 'dash-dot', 5: 'dash-dot-dot', 6: 'long-dash', 7: 'large-dot', 8: 'double', 9: 'double-2', 10: 'double-3', 11: 'triple', 12: 'wave', 13: 'double-wave', 14: 'inset', 15: 'outset', 16: 'groove', 17: 'ridge'})])),
        ('width_flags', ('flags', 'u8', [('width', 0, 4, {0: '0.1mm', 1: '0.12mm', 2: '0.15mm', 3: '0.2mm', 4: '0.25mm', 5: '0.3mm', 6: '0.4mm', 7: '0.5mm', 8: '0.6mm', 9: '0.7mm', 10: '1.0mm', 11: '1.5mm', 12: '2.0mm', 13: '3.0mm', 14: '4.0mm', 15: '5.0mm'})])),
        ('color', 'i32'),
    ],
    'FillColorPattern': [
        ('background_color', 'i32'),
        ('pattern_color', 'i32'),
        ('pattern_type_flags', ('flags', 'u32', [('pattern_type', 0, 7, {0: 'HORIZONTAL', 1: 'VERTICAL', 2: 'BACKSLASH', 3: 'SLASH', 4: 'GRID', 5: 'CROSS', 255: 'NONE'})])),
    ],
    'Coord32': [
        ('x', 'u32'),
        ('y', 'u32'),
    ],
    'FillGradation': [
        ('type', ('flags', 'u8', [('gradation_type', 0, 8, {1: 'LINEAR', 2: 'CIRCULAR', 3: 'CONICAL', 4: 'RECTANGULAR'})])),
        ('shear', 'u32'),
        ('center', ('struct', 'Coord32')),
        ('blur', 'u32'),
        ('colors', ('narr', 'u32', 'i32')),
    ],
    'FillImage': [
        ('flags', ('flags', 'u8', [('fillimage_type', 0, 16, {0: 'TILE_ALL', 1: 'TILE_HORIZONTAL_TOP', 2: 'TILE_HORIZONTAL_BOTTOM', 3: 'TILE_VERTICAL_LEFT', 4: 'TILE_VERTICAL_RIGHT', 5: 'RESIZE', 6: 'CENTER', 7: 'CENTER_TOP', 8: 'CENTER_BOTTOM', 9: 'LEFT_MIDDLE', 10: 'LEFT_TOP', 11: 'LEFT_BOTTOM', 12: 'RIGHT_MIDDLE', 13: 'RIGHT_TOP', 14: 'RIGHT_BOTTOM', 15: 'NONE'})])),
        ('brightness', 'i8'),
        ('contrast', 'i8'),
        ('effect', ('flags', 'u8', [('effect_type', 0, 8, {0: 'REAL_PIC', 1: 'GRAY_SCALE', 2: 'BLACK_WHITE', 3: 'PATTERN8x8'})])),
        ('bindata_id', 'u16'),
    ],
    'BorderFill': [
        ('borderflags', ('flags', 'u16', [('effect_3d', 0, 0, None), ('effect_shadow', 1, 1, None), ('slash', 2, 4, None), ('backslash', 5, 6, None)])),
        ('left', ('struct', 'Border')),
        ('right', ('struct', 'Border')),
        ('top', ('struct', 'Border')),
        ('bottom', ('struct', 'Border')),
        ('diagonal', ('struct', 'Border')),
        ('fillflags', ('flags', 'u32', [('colorpattern', 0, 0, None), ('image', 1, 1, None), ('gradation', 2, 2, None)])),
        ('fill_colorpattern', ('struct', 'FillColorPattern'), None, "v['fillflags'] & 1"),
        ('fill_gradation', ('struct', 'FillGradation'), None, "v['fillflags'] & 4"),
        ('fill_image', ('struct', 'FillImage'), None, "v['fillflags'] & 2"),
        ('shape', 'u32', None, "v['fillflags'] & 4"),
        ('blur_center', 'u8', None, "v['fillflags'] & 4"),
    ],
    'FontFace': [
        ('ko', 'u16'),
        ('en', 'u16'),
        ('cn', 'u16'),
        ('jp', 'u16'),
        ('other', 'u16'),
        ('symbol', 'u16'),
        ('user', 'u16'),
    ],
    'LetterWidthExpansion': [
        ('ko', 'u8'),
        ('en', 'u8'),
        ('cn', 'u8'),
        ('jp', 'u8'),
        ('other', 'u8'),
        ('symbol', 'u8'),
        ('user', 'u8'),
    ],
    'LetterSpacing': [
        ('ko', 'i8'),
        ('en', 'i8'),
        ('cn', 'i8'),
        ('jp', 'i8'),
        ('other', 'i8'),
        ('symbol', 'i8'),
        ('user', 'i8'),
    ],
    'RelativeSize': [
        ('ko', 'u8'),
        ('en', 'u8'),
        ('cn', 'u8'),
        ('jp', 'u8'),
        ('other', 'u8'),
        ('symbol', 'u8'),
        ('user', 'u8'),
    ],
    'Position': [
        ('ko', 'i8'),
        ('en', 'i8'),
        ('cn', 'i8'),
        ('jp', 'i8'),
        ('other', 'i8'),
        ('symbol', 'i8'),
        ('user', 'i8'),
    ],
    'ShadowSpace': [
        ('x', 'i8'),
        ('y', 'i8'),
    ],
    'CharShape': [
        ('font_face', ('struct', 'FontFace')),
        ('letter_width_expansion', ('struct', 'LetterWidthExpansion')),
        ('letter_spacing', ('struct', 'LetterSpacing')),
        ('relative_size', ('struct', 'RelativeSize')),
        ('position', ('struct', 'Position')),
        ('basesize', 'i32'),
        ('charshapeflags', ('flags', 'u32', [('italic', 0, 0, None), ('bold', 1, 1, None), ('underline', 2, 3, {0: 'NONE', 1: 'UNDERLINE', 2: 'LINE_THROUGH', 3: 'OVERLINE'}), ('underline_style', 4, 7, {0: 'SOLID', 1: 'DASHED', 2: 'DOTTED', 3: 'DASH_DOT', 4: 'DASH_DOT_DOT', 5: 'LONG_DASHED', 6: 'LARGE_DOTTED', 7: 'DOUBLE', 8: 'LOWER_WEIGHTED', 9: 'UPPER_WEIGHTED', 10: 'MIDDLE_WEIGHTED'}), ('outline', 8, 10, None), ('shadow', 11, 13, None)])),
        ('shadow_space', ('struct', 'ShadowSpace')),
        ('text_color', 'i32'),
        ('underline_color', 'i32'),
        ('shade_color', 'i32'),
        ('shadow_color', 'i32'),
    ],
    'Tab': [
        ('pos', 'u32'),
        ('flags', ('flags', 'u32', [('kind', 0, 7, {0: 'LEFT', 1: 'RIGHT', 2: 'CENTER', 3: 'FLOAT'}), ('fill_type', 8, 15, None)])),
    ],
    'TabDef': [
        ('flags', ('flags', 'u32', [('autotab_left', 0, 0, None), ('autotab_right', 1, 1, None)])),
        ('tabs', ('narr', 'u32', ('struct', 'Tab'))),
    ],
    'NumberingLevel': [
        ('flags', ('flags', 'u32', [('align', 0, 1, {0: 'LEFT', 1: 'CENTER', 2: 'RIGHT', 3: 'UNKNOWN'}), ('auto_width', 2, 2, None), ('auto_indent', 3, 3, None), ('space_type', 4, 4, {0: 'RATIO', 1: 'VALUE'})])),
        ('width_correction', 'i16'),
        ('space', 'u16'),
        ('charshape_id', 'i32'),
        ('numbering_format', 'bstr'),
    ],
    'Numbering': [
        ('levels', ('arr', 7, ('struct', 'NumberingLevel'))),
        ('starting_number', 'u16'),
        ('unknown', ('arr', 7, 'u32'), (5, 0, 3, 0), None),
    ],
    'Bullet': [
        ('flags', ('flags', 'u32', [('align', 0, 1, {0: 'LEFT', 1: 'CENTER', 2: 'RIGHT'}), ('auto_indent', 3, 3, None)])),
        ('width', 'i16'),
        ('space', 'u16'),
        ('charshape_id', 'i32'),
        ('char', 'u16'),
    ],
    'ParaShape': [
        ('parashapeflags', ('flags', 'u32', [('linespacing_type', 0, 1, {0: 'RATIO', 1: 'FIXED', 2: 'SPACEONLY', 3: 'MINIMUM'}), ('align', 2, 4, {0: 'BOTH', 1: 'LEFT', 2: 'RIGHT', 3: 'CENTER', 4: 'DISTRIBUTE', 5: 'DISTRIBUTE_SPACE'}), ('linebreak_alphabet', 5, 6, {0: 'WORD', 1: 'HYPHEN', 2: 'CHAR'}), ('linebreak_hangul', 7, 7, {0: 'WORD', 1: 'CHAR'}), ('use_paper_grid', 8, 8, None), ('minimum_space', 9, 15, None), ('protect_single_line', 16, 16, None), ('with_next_paragraph', 17, 17, None), ('protect', 18, 18, None), ('start_new_page', 19, 19, None), ('valign', 20, 21, {0: 'FONT', 1: 'TOP', 2: 'CENTER', 3: 'BOTTOM'}), ('lineheight_along_fontsize', 22, 22, None), ('head_shape', 23, 24, {0: 'NONE', 1: 'OUTLINE', 2: 'NUMBER', 3: 'BULLET'}), ('level', 25, 27, None), ('linked_border', 28, 28, None), ('ignore_margin', 29, 29, None), ('tail_shape', 30, 30, None)])),
        ('doubled_margin_left', 'i32'),
        ('doubled_margin_right', 'i32'),
        ('indent', 'i32'),
        ('doubled_margin_top', 'i32'),
        ('doubled_margin_bottom', 'i32'),
        ('linespacing', 'i32'),
        ('tabdef_id', 'u16'),
        ('numbering_bullet_id', 'u16'),
        ('borderfill_id', 'u16'),
        ('border_left', 'i16'),
        ('border_right', 'i16'),
        ('border_top', 'i16'),
        ('border_bottom', 'i16'),
        ('flags2', ('flags', 'u32', [('in_single_line', 0, 1, None), ('reserved', 2, 3, None), ('autospace_alphabet', 4, 4, None), ('autospace_number', 5, 5, None)]), (5, 0, 1, 7), None),
    ],
    'Style': [
        ('local_name', 'bstr'),
        ('name', 'bstr'),
        ('flags', ('flags', 'u8', [('kind', 0, 1, {0: 'PARAGRAPH', 1: 'CHAR'})])),
        ('next_style_id', 'u8'),
        ('lang_id', 'i16'),
        ('parashape_id', 'u16'),
        ('charshape_id', 'u16'),
        ('unknown', 'u16'),
    ],
    'DocData': [
    ],
    'DistributeDocData': [
    ],
    'CompatibleDocument': [
        ('flags', ('flags', 'u32', [('target', 0, 1, None)])),
    ],
    'LayoutCompatibility': [
        ('char', 'u32'),
        ('paragraph', 'u32'),
        ('section', 'u32'),
        ('object', 'u32'),
        ('field', 'u32'),
    ],
    'TagModel32': [
    ],
    'Paragraph': [
        ('text', ('flags', 'u32', [('chars', 0, 30, None), ('unknown', 31, 31, None)])),
        ('controlmask', ('flags', 'u32', [('unknown1', 2, 2, None), ('control', 11, 11, None), ('new_number', 21, 21, None)])),
        ('parashape_id', 'u16'),
        ('style_id', 'u8'),
        ('split', ('flags', 'u8', [('new_section', 0, 0, None), ('new_columnsdef', 1, 1, None), ('new_page', 2, 2, None), ('new_column', 3, 3, None)])),
        ('charshapes', 'u16'),
        ('rangetags', 'u16'),
        ('linesegs', 'u16'),
        ('instance_id', 'u32'),
    ],
    'ParaText': [
        ('chunks', 'chunks'),
    ],
    'ParaCharShape': [
        ('charshapes', ('xarr', "pv['charshapes']", ('arr', 2, 'u32'))),
    ],
    'LineSeg': [
        ('chpos', 'i32'),
        ('y', 'i32'),
        ('height', 'i32'),
        ('height_text', 'i32'),
        ('height_baseline', 'i32'),
        ('space_below', 'i32'),
        ('x', 'i32'),
        ('width', 'i32'),
        ('lineseg_flags', ('flags', 'u32', [('line_head', 17, 17, None), ('line_tail', 18, 18, None), ('indented', 20, 20, None), ('bullet', 21, 21, None)])),
    ],
    'ParaLineSeg': [
        ('linesegs', ('xarr', "pv['linesegs']", ('struct', 'LineSeg'))),
    ],
    'RangeTag': [
        ('start', 'u32'),
        ('end', 'u32'),
        ('tag', ('flags', 'u32', [('data', 0, 23, None), ('kind', 24, 31, None)])),
    ],
    'ParaRangeTag': [
        ('range_tags', ('xarr', "pv['rangetags']", ('struct', 'RangeTag'))),
    ],
    'Control': [
        ('chid', 'chid'),
    ],
    'ListHeader': [
        ('paragraphs', 'u16'),
        ('unknown1', 'u16'),
        ('listflags', ('flags', 'u32', [('textdirection', 0, 2, None), ('linebreak', 3, 4, None), ('valign', 5, 6, {0: 'TOP', 1: 'MIDDLE', 2: 'BOTTOM'})])),
    ],
    'PageDef': [
        ('width', 'u32'),
        ('height', 'u32'),
        ('left_offset', 'u32'),
        ('right_offset', 'u32'),
        ('top_offset', 'u32'),
        ('bottom_offset', 'u32'),
        ('header_offset', 'u32'),
        ('footer_offset', 'u32'),
        ('bookbinding_offset', 'u32'),
        ('attr', ('flags', 'u32', [('orientation', 0, 0, {0: 'PORTRAIT', 1: 'LANDSCAPE'}), ('bookbinding', 1, 2, {0: 'LEFT', 1: 'RIGHT', 2: 'TOP', 3: 'BOTTOM'})])),
    ],
    'FootnoteShape': [
        ('flags', ('flags', 'u32', [])),
        ('usersymbol', 'u16'),
        ('prefix', 'u16'),
        ('suffix', 'u16'),
        ('starting_number', 'u16'),
        ('splitter_length', 'i16'),
        ('splitter_unknown', 'i16'),
        ('splitter_margin_top', 'i16'),
        ('splitter_margin_bottom', 'i16'),
        ('notes_spacing', 'i16'),
        ('splitter_stroke_type', ('flags', 'u8', [('stroke_type', 0, 4, {0: 'none', 1: 'solid', 2: 'dashed', 3: 'dotted', 4: 'dash-dot', 5: 'dash-dot-dot', 6: 'long-dash', 7: 'large-dot', 8: 'double', 9: 'double-2', 10: 'double-3', 11: 'triple', 12: 'wave', 13: 'double-wave', 14: 'inset', 15: 'outset', 16: 'groove', 17: 'ridge'})])),
        ('splitter_width', ('flags', 'u8', [('width', 0, 4, {0: '0.1mm', 1: '0.12mm', 2: '0.15mm', 3: '0.2mm', 4: '0.25mm', 5: '0.3mm', 6: '0.4mm', 7: '0.5mm', 8: '0.6mm', 9: '0.7mm', 10: '1.0mm', 11: '1.5mm', 12: '2.0mm', 13: '3.0mm', 14: '4.0mm', 15: '5.0mm'})])),
        ('splitter_color', 'i32'),
    ],
    'Margin': [
        ('left', 'i16'),
        ('right', 'i16'),
        ('top', 'i16'),
        ('bottom', 'i16'),
    ],
    'PageBorderFill': [
        ('flags', ('flags', 'u32', [('relative_to', 0, 0, {0: 'BODY', 1: 'PAPER'}), ('include_header', 1, 1, None), ('include_footer', 2, 2, None), ('fill', 3, 4, {0: 'PAPER', 1: 'PAGE', 2: 'BORDER'})])),
        ('margin', ('struct', 'Margin')),
        ('borderfill_id', 'u16'),
    ],
    'Coord': [
        ('x', 'i32'),
        ('y', 'i32'),
    ],
    'Matrix': [
        ('a', 'f64'),
        ('c', 'f64'),
        ('e', 'f64'),
        ('b', 'f64'),
        ('d', 'f64'),
        ('f', 'f64'),
    ],
    'ScaleRotationMatrix': [
        ('scaler', ('struct', 'Matrix')),
        ('rotator', ('struct', 'Matrix')),
    ],
    'BorderLine': [
        ('color', 'i32'),
        ('width', 'i32'),
        ('flags', ('flags', 'u32', [('stroke', 0, 5, {0: 'none', 1: 'solid', 2: 'dashed', 3: 'dotted', 4: 'dash-dot', 5: 'dash-dot-dot', 6: 'long-dash', 7: 'large-dot', 8: 'double', 9: 'double-2', 10: 'double-3', 11: 'triple', 12: 'wave', 13: 'double-wave', 14: 'inset', 15: 'outset', 16: 'groove', 17: 'ridge'}), ('line_end', 6, 9, {0: 'round', 1: 'flat'}), ('arrow_start', 10, 15, {0: 'none', 1: 'arrow', 2: 'arrow2', 3: 'diamond', 4: 'circle', 5: 'rect', 6: 'diamondfilled', 7: 'disc', 8: 'rectfilled'}), ('arrow_end', 16, 21, {0: 'none', 1: 'arrow', 2: 'arrow2', 3: 'diamond', 4: 'circle', 5: 'rect', 6: 'diamondfilled', 7: 'disc', 8: 'rectfilled'}), ('arrow_start_size', 22, 25, {0: 'smallest', 1: 'smaller', 2: 'small', 3: 'abitsmall', 4: 'normal', 5: 'abitlarge', 6: 'large', 7: 'larger', 8: 'largest'}), ('arrow_end_size', 26, 29, {0: 'smallest', 1: 'smaller', 2: 'small', 3: 'abitsmall', 4: 'normal', 5: 'abitlarge', 6: 'large', 7: 'larger', 8: 'largest'}), ('arrow_start_fill', 30, 30, None), ('arrow_end_fill', 31, 31, None)])),
    ],
    'ShapeComponent': [
        ('chid0', 'chid', None, "parent == 'GShapeObjectControl'"),
        ('chid', 'chid'),
        ('x_in_group', 'i32'),
        ('y_in_group', 'i32'),
        ('level_in_group', 'u16'),
        ('local_version', 'u16'),
        ('initial_width', 'i32'),
        ('initial_height', 'i32'),
        ('width', 'i32'),
        ('height', 'i32'),
        ('flags', ('flags', 'u32', [('flip', 0, 0, None)])),
        ('angle', 'u16'),
        ('rotation_center', ('struct', 'Coord')),
        ('scalerotations_count', 'u16'),
        ('translation', ('struct', 'Matrix')),
        ('scalerotations', ('xarr', "v['scalerotations_count']", ('struct', 'ScaleRotationMatrix'))),
        ('controls', ('narr', 'u16', 'chid'), None, "v['chid'] == '$con'"),
        ('border', ('struct', 'BorderLine'), None, "v['chid'] == '$rec'"),
        ('fill_flags', ('flags', 'u16', [('fill_colorpattern', 8, 8, None), ('fill_image', 9, 9, None), ('fill_gradation', 10, 10, None)]), None, "v['chid'] == '$rec'"),
        ('unknown', 'u16', None, "v['chid'] == '$rec'"),
        ('unknown1', 'u8', None, "v['chid'] == '$rec'"),
        ('fill_colorpattern', ('struct', 'FillColorPattern'), None, "v['chid'] == '$rec' and v['fill_flags'] >> 8 & 1"),
        ('fill_gradation', ('struct', 'FillGradation'), None, "v['chid'] == '$rec' and v['fill_flags'] >> 10 & 1"),
        ('fill_image', ('struct', 'FillImage'), None, "v['chid'] == '$rec' and v['fill_flags'] >> 9 & 1"),
        ('fill_shape', 'u32', None, "v['chid'] == '$rec'"),
        ('fill_blur_center', 'u8', None, "v['chid'] == '$rec' and v['fill_flags'] >> 10 & 1"),
        ('unknown2', ('hex', 5), (5, 0, 2, 4), "v['chid'] == '$rec'"),
        ('unknown3', ('hex', 16), (5, 0, 2, 4), "v['chid'] == '$rec'"),
        ('line', ('struct', 'BorderLine'), None, "v['chid'] == '$lin'"),
    ],
    'ZoneInfo': [
        ('starting_column', 'u16'),
        ('starting_row', 'u16'),
        ('end_column', 'u16'),
        ('end_row', 'u16'),
        ('borderfill_id', 'u16'),
    ],
    'TableBody': [
        ('flags', ('flags', 'u32', [('split_page', 0, 1, {0: 'NONE', 1: 'BY_CELL', 2: 'SPLIT'}), ('repeat_header', 2, 2, None)])),
        ('rows', 'u16'),
        ('cols', 'u16'),
        ('cellspacing', 'i16'),
        ('padding', ('struct', 'Margin')),
        ('rowcols', ('xarr', "v['rows']", 'u16')),
        ('borderfill_id', 'u16'),
        ('validZones', ('narr', 'u16', ('struct', 'ZoneInfo')), (5, 0, 0, 7), None),
    ],
    'ShapeLine': [
        ('p0', ('struct', 'Coord')),
        ('p1', ('struct', 'Coord')),
        ('attr', 'u16'),
    ],
    'ShapeRectangle': [
        ('round', 'u8'),
        ('p0', ('struct', 'Coord')),
        ('p1', ('struct', 'Coord')),
        ('p2', ('struct', 'Coord')),
        ('p3', ('struct', 'Coord')),
    ],
    'ShapeEllipse': [
        ('flags', ('flags', 'u32', [('arc_recalc_required', 0, 0, None), ('arc', 1, 1, None), ('arc_kind', 2, 9, None)])),
        ('center', ('struct', 'Coord')),
        ('axis1', ('struct', 'Coord')),
        ('axis2', ('struct', 'Coord')),
        ('start1', ('struct', 'Coord')),
        ('end1', ('struct', 'Coord')),
        ('start2', ('struct', 'Coord')),
        ('end2', ('struct', 'Coord')),
    ],
    'ShapeArc': [
        ('center', ('struct', 'Coord')),
        ('axis1', ('struct', 'Coord')),
        ('axis2', ('struct', 'Coord')),
    ],
    'ShapePolygon': [
        ('points', ('narr', 'u16', ('struct', 'Coord'))),
    ],
    'ShapeCurve': [
        ('points', ('narr', 'u16', ('struct', 'Coord'))),
    ],
    'ShapeOLE': [
        ('flags', ('flags', 'u32', [('dvaspect', 0, 7, None), ('moniker', 8, 8, None), ('baseline', 9, 15, None)])),
        ('extent_x', 'i32'),
        ('extent_y', 'i32'),
        ('storage_id', 'u16'),
        ('border', ('struct', 'BorderLine')),
    ],
    'ImageRect': [
        ('p0', ('struct', 'Coord')),
        ('p1', ('struct', 'Coord')),
        ('p2', ('struct', 'Coord')),
        ('p3', ('struct', 'Coord')),
    ],
    'ImageClip': [
        ('left', 'i32'),
        ('top', 'i32'),
        ('right', 'i32'),
        ('bottom', 'i32'),
    ],
    'PictureInfo': [
        ('brightness', 'i8'),
        ('contrast', 'i8'),
        ('effect', 'u8'),
        ('bindata_id', 'u16'),
    ],
    'PictureEffect': [
        ('flags', ('flags', 'u32', [])),
    ],
    'ShapePicture': [
        ('border', ('struct', 'BorderLine')),
        ('rect', ('struct', 'ImageRect')),
        ('clip', ('struct', 'ImageClip')),
        ('padding', ('struct', 'Margin')),
        ('picture', ('struct', 'PictureInfo')),
        ('border_transparency', 'u8', (5, 0, 2, 2), None),
        ('instance_id', 'u32', (5, 0, 2, 5), None),
        ('picture_effect', ('struct', 'PictureEffect'), (5, 0, 3, 4), None),
    ],
    'ShapeContainer': [
    ],
    'ControlData': [
    ],
    'EqEdit': [
    ],
    'ShapeTextArt': [
    ],
    'FormObject': [
    ],
    'MemoShape': [
    ],
    'MemoList': [
    ],
    'ForbiddenChar': [
    ],
    'ChartData': [
    ],
    'ShapeUnknown': [
    ],
    'FieldRevisionLineAttach': [
    ],
    'FieldRevisionClipping': [
    ],
    'FieldRevisionLine': [
    ],
    'FieldRevisionPraise': [
    ],
    'FieldRevisionSawtooth': [
    ],
    'FieldRevisionThinking': [
    ],
    'FieldRevisionAttach': [
    ],
    'FieldRevisionSimpleChange': [
    ],
    'FieldRevisionDelete': [
    ],
    'FieldRevisionSimpleInsert': [
    ],
    'FieldRevisionHyperlink': [
    ],
    'FieldRevisionLineLink': [
    ],
    'FieldRevisionLeftMove': [
    ],
    'FieldRevisionTransfer': [
    ],
    'FieldRevisionRightMove': [
    ],
    'FieldRevisionLineTransfer': [
    ],
    'FieldMemo': [
    ],
    'FieldRevisionChange': [
    ],
    'FieldBookmark': [
    ],
    'FieldClickHere': [
    ],
    'FieldPrivateInfoSecurity': [
    ],
    'FieldDocDate': [
    ],
    'FieldDate': [
    ],
    'FieldFormula': [
    ],
    'FieldHyperLink': [
    ],
    'FieldMailMerge': [
    ],
    'FieldPath': [
    ],
    'FieldRevisionSign': [
    ],
    'FieldSummary': [
    ],
    'FieldRevisionSplit': [
    ],
    'FieldUnknown': [
    ],
    'FieldUserInfo': [
    ],
    'FieldCrossRef': [
    ],
    'AutoNumbering': [
        ('usersymbol', 'u16'),
        ('prefix', 'u16'),
        ('suffix', 'u16'),
    ],
    'BookmarkControl': [
    ],
    'Column0': [
        ('width', 'u16'),
    ],
    'Column': [
        ('spacing', 'u16'),
        ('width', 'u16'),
    ],
    'ColumnsDef': [
        ('flags', ('flags', 'u16', [('kind', 0, 1, {0: 'normal', 1: 'distribute', 2: 'parallel'}), ('count', 2, 9, None), ('direction', 10, 11, {0: 'l2r', 1: 'r2l', 2: 'both'}), ('same_widths', 12, 12, None)])),
        ('spacing', 'i16'),
        ('column0', ('struct', 'Column0'), None, "not v['flags'] >> 12 & 1"),
        ('columns', ('xarr', "(v['flags'] >> 2 & 0xff) - 1", ('struct', 'Column')), None, "not v['flags'] >> 12 & 1"),
        ('attr2', 'u16'),
        ('splitter', ('struct', 'Border')),
    ],
    'EndNote': [
    ],
    'FootNote': [
    ],
    'Footer': [
    ],
    'GShapeObjectControl': [
    ],
    'Header': [
    ],
    'IndexMarker': [
        ('keyword1', 'bstr'),
        ('keyword2', 'bstr'),
        ('dummy', 'u16'),
    ],
    'NewNumbering': [
    ],
    'PageOddEven': [
        ('flags', ('flags', 'u32', [('pages', 0, 1, {0: 'BOTH_PAGES', 1: 'EVEN_PAGE', 2: 'ODD_PAGE'})])),
    ],
    'PageHide': [
        ('flags', ('flags', 'u32', [('header', 0, 0, None), ('footer', 1, 1, None), ('basepage', 2, 2, None), ('pageborder', 3, 3, None), ('pagefill', 4, 4, None), ('pagenumber', 5, 5, None)])),
    ],
    'PageNumberPosition': [
        ('flags', ('flags', 'u32', [('shape', 0, 7, None), ('position', 8, 11, {0: 'NONE', 1: 'TOP_LEFT', 2: 'TOP_CENTER', 3: 'TOP_RIGHT', 4: 'BOTTOM_LEFT', 5: 'BOTTOM_CENTER', 6: 'BOTTOM_RIGHT', 7: 'OUTSIDE_TOP', 8: 'OUTSIDE_BOTTOM', 9: 'INSIDE_TOP', 10: 'INSIDE_BOTTOM'})])),
        ('usersymbol', 'u16'),
        ('prefix', 'u16'),
        ('suffix', 'u16'),
        ('dash', 'u16'),
    ],
    'SectionDef': [
        ('flags', ('flags', 'u32', [('hide_header', 0, 0, None), ('hide_footer', 1, 1, None), ('hide_page', 2, 2, None), ('hide_border', 3, 3, None), ('hide_background', 4, 4, None), ('hide_pagenumber', 5, 5, None), ('show_border_on_first_page_only', 8, 8, None), ('show_background_on_first_page_only', 9, 9, None), ('text_direction', 16, 18, None), ('hide_blank_line', 19, 19, None), ('pagenum_on_split_section', 20, 21, None), ('squared_manuscript_paper', 22, 22, None)])),
        ('columnspacing', 'i16'),
        ('grid_vertical', 'i16'),
        ('grid_horizontal', 'i16'),
        ('defaultTabStops', 'u32'),
        ('numbering_shape_id', 'u16'),
        ('starting_pagenum', 'u16'),
        ('starting_picturenum', 'u16'),
        ('starting_tablenum', 'u16'),
        ('starting_equationnum', 'u16'),
        ('unknown1', 'u32', (5, 0, 1, 7), None),
        ('unknown2', 'u32', (5, 0, 1, 7), None),
    ],
    'TableControl': [
    ],
    'HiddenComment': [
    ],
    'TCPSControl': [
        ('textlength', 'bstr'),
    ],
    'Dutmal': [
        ('maintext', 'bstr'),
        ('subtext', 'bstr'),
        ('position-flags', ('flags', 'u32', [('position', 0, 31, {0: 'ABOVE', 1: 'BELOW', 2: 'CENTER'})])),
        ('fsizeratio', 'u32'),
        ('option', 'u32'),
        ('stylenumber', 'u32'),
        ('align-flags', ('flags', 'u32', [('align', 0, 31, {0: 'BOTH', 1: 'LEFT', 2: 'RIGHT', 3: 'CENTER', 4: 'DISTRIBUTE', 5: 'DISTRIBUTE_SPACE'})])),
    ],
    'CommonControl': [
        ('flags', ('flags', 'u32', [('inline', 0, 0, None), ('affect_line_spacing', 2, 2, None), ('vrelto', 3, 4, {0: 'PAPER', 1: 'PAGE', 2: 'PARAGRAPH'}), ('valign', 5, 7, {0: 'TOP', 1: 'MIDDLE', 2: 'BOTTOM'}), ('hrelto', 8, 9, {0: 'PAPER', 1: 'PAGE', 2: 'COLUMN', 3: 'PARAGRAPH'}), ('halign', 10, 12, {0: 'LEFT', 1: 'CENTER', 2: 'RIGHT', 3: 'INSIDE', 4: 'OUTSIDE'}), ('restrict_in_page', 13, 13, None), ('overlap_others', 14, 14, None), ('width_relto', 15, 17, {0: 'PAPER', 1: 'PAGE', 2: 'COLUMN', 3: 'PARAGRAPH', 4: 'ABSOLUTE'}), ('height_relto', 18, 19, {0: 'PAPER', 1: 'PAGE', 2: 'ABSOLUTE'}), ('protect_size_when_vrelto_paragraph', 20, 20, None), ('flow', 21, 23, {0: 'FLOAT', 1: 'BLOCK', 2: 'BACK', 3: 'FRONT'}), ('text_side', 24, 25, {0: 'BOTH', 1: 'LEFT', 2: 'RIGHT', 3: 'LARGER'}), ('number_category', 26, 27, {0: 'NONE', 1: 'FIGURE', 2: 'TABLE', 3: 'EQUATION'})])),
        ('y', 'i32'),
        ('x', 'i32'),
        ('width', 'u32'),
        ('height', 'u32'),
        ('z_order', 'i16'),
        ('unknown1', 'i16'),
        ('margin', ('struct', 'Margin')),
        ('instance_id', 'u32'),
        ('unknown2', 'i16', (5, 0, 0, 5), None),
        ('description', 'bstr', (5, 0, 0, 5), None),
    ],
    'Field': [
        ('flags', ('flags', 'u32', [('editableInReadOnly', 0, 0, None), ('visitedType', 11, 14, None), ('modified', 15, 15, None)])),
        ('extra_attr', 'u8'),
        ('command', 'bstr'),
        ('id', 'u32'),
    ],
    'Note': [
        ('number', 'u32'),
        ('unknown0', 'u32'),
        ('unknown1', 'u32'),
        ('unknown2', 'u16', (5, 0, 3, 0), None),
        ('unknown3', 'u16', (5, 0, 3, 0), None),
    ],
    'HeaderFooter': [
        ('flags', ('flags', 'u32', [('places', 0, 1, {0: 'BOTH_PAGES', 1: 'EVEN_PAGE', 2: 'ODD_PAGE'})])),
    ],
    'TableCaption': [
        ('flags', ('flags', 'u32', [('position', 0, 1, {0: 'LEFT', 1: 'RIGHT', 2: 'TOP', 3: 'BOTTOM'}), ('expand_to_margin', 2, 2, None)])),
        ('width', 'u32'),
        ('separation', 'i16'),
        ('max_width', 'u32'),
    ],
    'TableCell': [
        ('col', 'u16'),
        ('row', 'u16'),
        ('colspan', 'u16'),
        ('rowspan', 'u16'),
        ('width', 'i32'),
        ('height', 'i32'),
        ('padding', ('struct', 'Margin')),
        ('borderfill_id', 'u16'),
        ('unknown_width', 'i32'),
    ],
    'GShapeObjectCaption': [
    ],
    'TextboxParagraphList': [
        ('padding', ('struct', 'Margin')),
        ('maxwidth', 'u32'),
    ],
    'HeaderParagraphList': [
    ],
    'FooterParagraphList': [
    ],
    'BookmarkControlData': [
        ('unknown1', 'u32'),
        ('unknown2', 'u32'),
        ('unknown3', 'u16'),
        ('name', 'bstr'),
    ],
    'FieldClickHereData': [
    ],
    'SectionDefData': [
        ('unknown', ('hex', 280)),
    ],
    'NumberingControl': [
        ('flags', ('flags', 'u32', [('kind', 0, 3, {0: 'PAGE', 1: 'FOOTNOTE', 2: 'ENDNOTE', 3: 'PICTURE', 4: 'TABLE', 5: 'EQUATION', 6: 'UNKNOWN6'}), ('footnoteshape', 4, 11, None), ('superscript', 12, 12, None)])),
        ('number', 'u16'),
    ],
    'HeaderFooterParagraphList': [
        ('width', 'u32'),
        ('height', 'u32'),
        ('textrefsbitmap', 'u8'),
        ('numberrefsbitmap', 'u8'),
    ],
}


TAG_OF = dict((name, tag) for tag, name in TAGS.items())
CHID_OF = dict((name, chid) for chid, name in CONTROLS.items())

GATES = sorted(set(m[2] for ms in STRUCTS.values() for m in ms
                   if len(m) > 2 and m[2]))


def versions():
    """every version at, just below, between and beyond the gates"""
    out = set([(5, 0, 0, 0), (5, 0, 5, 0), (5, 1, 0, 0), (6, 0, 0, 0)])
    for g in GATES:
        out.add(g)
        out.add(g[:3] + (g[3] - 1,) if g[3] else
                g[:2] + (g[2] - 1, 255))
        out.add(g[:3] + (g[3] + 1,))
    return sorted(out)


def bases(model):
    if model in BASES:
        return BASES[model]
    return [model] if model in STRUCTS else []


def tag_of(model):
    if model in CTRLDATA.values():
        return TAG_OF['ControlData']
    for name in [model] + list(bases(model)):
        if name in TAG_OF:
            return TAG_OF[name]
    raise KeyError(model)


def members(model):
    """members of a record type including those of its base records"""
    out = []
    for b in bases(model):
        out.extend(STRUCTS[b])
    return out


FMT = {'u8': 'B', 'i8': 'b', 'u16': 'H', 'i16': 'h', 'u32': 'I', 'i32': 'i',
       'f64': 'd'}


def default(t):
    if t in ('bstr',):
        return ''
    if t == 'chid':
        return '\0\0\0\0'
    if t == 'chunks':
        return []
    if t == 'f64':
        return 0.0
    if isinstance(t, str):
        return 0
    k = t[0]
    if k == 'hex':
        return b'\0' * t[1]
    if k == 'struct':
        return {}
    if k == 'flags':
        return 0
    if k == 'arr':
        return [default(t[2]) for _ in range(t[1])]
    return None


class Ctx(object):
    def __init__(self, version, parent=None, pv=None):
        self.version = tuple(version)
        self.parent = parent
        self.pv = pv or {}

    def ev(self, expr, v):
        return eval(expr, {}, {'v': v, 'parent': self.parent,
                               'pv': self.pv})


def encode_value(t, val, ctx, v):
    """-> (bytes, expected decoded value)"""
    if isinstance(t, str):
        if t in FMT:
            return struct.pack('<' + FMT[t], val), val
        if t == 'bstr':
            u = val.encode('utf-16le', 'surrogatepass')
            return struct.pack('<H', len(u) // 2) + u, val
        if t == 'chid':
            return val.encode('latin1')[::-1], val
        if t == 'chunks':
            # val: list of (bytes, chunk)
            return b''.join(b for b, _ in val), [c for _, c in val]
        raise KeyError(t)
    k = t[0]
    if k == 'hex':
        assert len(val) == t[1]
        return bytes(val), val.hex().encode('ascii')
    if k == 'struct':
        return encode_struct(t[1], val, ctx)
    if k == 'flags':
        return struct.pack('<' + FMT[t[1]], val), val
    if k == 'select':
        key = ctx.ev(t[1], v)
        if key not in t[2]:
            return b'', None
        return encode_value(t[2][key], val if val is not None else
                            default(t[2][key]), ctx, v)
    if k in ('arr', 'narr', 'xarr'):
        head = b''
        if k == 'arr':
            n = t[1]
        elif k == 'narr':
            val = val or []
            n = len(val)
            head = struct.pack('<' + FMT[t[1]], n)
        else:
            n = max(ctx.ev(t[1], v), 0)
            if val is None:
                val = [default(t[2]) for _ in range(n)]
        assert len(val) == n, (t, val, n)
        out = head
        exp = []
        for x in val:
            b, e = encode_value(t[2], x, ctx, v)
            out += b
            exp.append(e)
        return out, exp
    raise KeyError(t)


def walk_members(ms, values, ctx, v):
    """-> yields (name, bytes, expected, type) of the members present"""
    for m in ms:
        name, t = m[0], m[1]
        gate = m[2] if len(m) > 2 else None
        cond = m[3] if len(m) > 3 else None
        if gate and ctx.version < tuple(gate):
            continue
        if cond and not ctx.ev(cond, v):
            continue
        val = values.get(name, None)
        if val is None:
            val = default(t)
        if t[0] == 'select' and ctx.ev(t[1], v) not in t[2]:
            continue
        b, e = encode_value(t, val, ctx, v)
        v[name] = e
        yield name, b, e, t


def known(values, names, what):
    extra = set(values) - names
    if extra:
        raise KeyError('%s has no member %s' % (what, sorted(extra)))


def encode_struct(name, values, ctx):
    v = {}
    known(values, set(m[0] for m in STRUCTS[name]), name)
    out = b''
    for _, b, _, _ in walk_members(STRUCTS[name], values, ctx, v):
        out += b
    return out, v


def encode_record(model, values, ctx):
    """-> (payload, expected content)"""
    if model in CHID_OF and 'chid' not in values:
        values = dict(values, chid=CHID_OF[model])
    content = {}
    out = b''
    known(values, set(m[0] for b in bases(model) for m in STRUCTS[b]) |
          set(['chid']), model)
    for b in bases(model):
        # conditions of a base record see the members of that base only
        v = {}
        for _, data, _, _ in walk_members(STRUCTS[b], values, ctx, v):
            out += data
        content.update(v)
    return out, content
