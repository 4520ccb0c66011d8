//! Removing attributes and elements that make no difference.
use crate::job;
use crate::jobs::*;
use crate::svg::said as attr;
use crate::sym;
use oxvg_optimiser::*;



/// A document around an attribute (`%`), and values of the attribute: `@` is a digit.
const DEFAULTS: &[(&str, &[&str])] = &[
    ("<rect width='4' height='5'%/>", &["x='@'", "y='@px'", "rx='@'", "ry='@'", "x='@%'"]),
    ("<circle r='3'%/>", &["cx='@'", "cy='.@'"]),
    ("<line x2='4' y2='3' stroke='red'%/>", &["x1='@'", "y1='@'", "y1='@%'"]),
    ("<line x1='4' y1='3' stroke='red'%/>", &["x2='@'", "y2='@'"]),
    ("<linearGradient id='g'%><stop/><stop offset='1' stop-color='red'/></linearGradient><path d='M1 1h5v9z' fill='url(#g)'/>", &["x1='@%'", "y1='@'", "y1='-10%'", "y1='-1000%'", "x2='10@%'", "x2='10000%'", "x2='@'", "y2='@%'", "gradientUnits='objectBoundingBox'", "gradientUnits='userSpaceOnUse'", "spreadMethod='pad'", "spreadMethod='reflect'", "gradientTransform='scale(@)'"]),
    ("<linearGradient id='t' x1='.2' x2='.3' y1='.4' y2='.5' gradientUnits='userSpaceOnUse' spreadMethod='repeat'><stop/><stop offset='1' stop-color='red'/></linearGradient><linearGradient id='g' href='#t'%/><path d='M1 1h5v9z' fill='url(#g)'/>", &["x1='@%'", "y1='@'", "x2='10@%'", "y2='@'", "gradientUnits='objectBoundingBox'", "spreadMethod='pad'"]),
    ("<radialGradient id='g'%><stop/><stop offset='1' stop-color='red'/></radialGradient><path d='M1 1h5v9z' fill='url(#g)'/>", &["cx='5@%'", "cy='5@%'", "cx='5@'", "cy='5@'", "r='5@%'", "r='5@'", "fr='@%'", "fx='@'"]),
    ("<radialGradient id='g' gradientUnits='userSpaceOnUse'%><stop/><stop offset='1' stop-color='red'/></radialGradient><path d='M1 1h5v9z' fill='url(#g)'/>", &["cx='5@%'", "cy='5@'", "cx='5@'", "r='5@'", "r='5@%'"]),
    ("<radialGradient id='t' cx='.1' cy='.2' r='.3' fr='.4'><stop/><stop offset='1' stop-color='red'/></radialGradient><radialGradient id='g' xlink:href='#t'%/><path d='M1 1h5v9z' fill='url(#g)'/>", &["cx='5@%'", "cy='5@'", "r='5@%'", "fr='@%'"]),
    ("<linearGradient id='g'><stop stop-color='red'%/><stop offset='1'/></linearGradient><path d='M1 1h5v9z' fill='url(#g)'/>", &["offset='.@'", "stop-opacity='@'"]),
    ("<linearGradient id='g'><stop offset='1'%/><stop offset='.5' stop-color='red'/></linearGradient><path d='M1 1h5v9z' fill='url(#g)'/>", &["stop-color='#00@'", "stop-color='black'"]),
    ("<pattern id='g' width='2' height='2'%><path d='M0 0h1v1z'/></pattern><path d='M1 1h5v9z' fill='url(#g)'/>", &["patternUnits='objectBoundingBox'", "patternUnits='userSpaceOnUse'", "patternContentUnits='userSpaceOnUse'", "patternContentUnits='objectBoundingBox'", "x='@'", "y='@'"]),
    ("<pattern id='t' width='3' height='3' patternUnits='userSpaceOnUse' patternContentUnits='objectBoundingBox' x='1' y='2'/><pattern id='g' href='#t'%><path d='M0 0h1v1z'/></pattern><path d='M1 1h5v9z' fill='url(#g)'/>", &["patternUnits='objectBoundingBox'", "patternContentUnits='userSpaceOnUse'", "x='@'", "y='@'", "width='@%'", "height='@%'"]),
    ("<clipPath id='g'%><path d='M0 0h1v1z'/></clipPath><path d='M1 1h5v9z' clip-path='url(#g)'/>", &["clipPathUnits='userSpaceOnUse'", "clipPathUnits='objectBoundingBox'"]),
    ("<clipPath id='g'><path d='M0 0h1v1z'%/></clipPath><path d='M1 1h5v9z' clip-path='url(#g)'/>", &["clip-rule='nonzero'", "clip-rule='evenodd'"]),
    ("<mask id='g'%><path d='M0 0h1v1z'/></mask><path d='M1 1h5v9z' mask='url(#g)'/>", &["maskUnits='objectBoundingBox'", "maskUnits='userSpaceOnUse'", "maskContentUnits='userSpaceOnUse'", "maskContentUnits='objectBoundingBox'", "x='-1@%'", "y='-1@%'", "width='12@%'", "height='12@%'", "x='@'", "width='12000%'"]),
    ("<filter id='g'%><feFlood/></filter><path d='M1 1h5v9z' filter='url(#g)'/>", &["filterUnits='objectBoundingBox'", "filterUnits='userSpaceOnUse'", "primitiveUnits='userSpaceOnUse'", "primitiveUnits='objectBoundingBox'", "x='-1@%'", "y='-1@%'", "width='12@%'", "height='12@%'", "y='@'", "height='12000%'", "x='-1000%'"]),
    ("<marker id='g'%><path d='M0 0h1v1z'/></marker><path d='M1 1h5v9z' marker-end='url(#g)'/>", &["markerUnits='strokeWidth'", "markerUnits='userSpaceOnUse'", "markerWidth='@'", "markerHeight='@'", "refX='@'", "refY='@'", "orient='@'", "orient='auto'", "preserveAspectRatio='xMidYMid meet'", "preserveAspectRatio='none'"]),
    ("<filter id='g'><%/></filter><path d='M1 1h5v9z' filter='url(#g)'/>", &[
        "feBlend mode='normal'", "feBlend mode='screen'", "feColorMatrix type='matrix'", "feColorMatrix type='saturate'", "feComposite operator='over'", "feComposite operator='in'",
        "feComposite operator='arithmetic' k1='@'", "feComposite operator='arithmetic' k4='@'", "feConvolveMatrix order='@' kernelMatrix='1'", "feConvolveMatrix edgeMode='duplicate'", "feConvolveMatrix edgeMode='none'",
        "feConvolveMatrix preserveAlpha='false'", "feConvolveMatrix preserveAlpha='true'", "feConvolveMatrix bias='@'", "feConvolveMatrix kernelMatrix='1 2 3 4 5 6 7 8 9' divisor='@'",
        "feDiffuseLighting surfaceScale='@'", "feDiffuseLighting diffuseConstant='@'", "feSpecularLighting specularConstant='@'", "feSpecularLighting specularExponent='@'",
        "feDisplacementMap scale='@'", "feDisplacementMap xChannelSelector='A'", "feDisplacementMap yChannelSelector='A'", "feDisplacementMap xChannelSelector='R'", "feDisplacementMap yChannelSelector='R'",
        "feDropShadow dx='@'", "feDropShadow dy='@'", "feDropShadow stdDeviation='@'", "feGaussianBlur stdDeviation='@'", "feGaussianBlur edgeMode='none'", "feGaussianBlur edgeMode='duplicate'",
        "feMorphology operator='erode'", "feMorphology operator='dilate'", "feMorphology radius='@'", "feOffset dx='@'", "feOffset dy='@'", "feTurbulence baseFrequency='@'", "feTurbulence numOctaves='@'",
        "feTurbulence seed='@'", "feTurbulence stitchTiles='noStitch'", "feTurbulence stitchTiles='stitch'", "feTurbulence type='turbulence'", "feTurbulence type='fractalNoise'",
        "feFlood x='@%'", "feFlood y='@'", "feFlood width='10@%'", "feFlood height='100%'", "feFlood flood-opacity='@'", "feFlood flood-color='#00@'", "feOffset color-interpolation-filters='linearRGB'", "feOffset color-interpolation-filters='sRGB'",
    ]),
    ("<filter id='g'><feComponentTransfer><feFuncR%/></feComponentTransfer></filter><path d='M1 1h5v9z' filter='url(#g)'/>", &["type='identity'", "type='linear' slope='@'", "type='linear' intercept='@'", "type='gamma' amplitude='@'", "type='gamma' exponent='@'", "type='gamma' offset='@'", "type='table' tableValues='@'"]),
    ("<filter id='g'><feDiffuseLighting><%/></feDiffuseLighting></filter><path d='M1 1h5v9z' filter='url(#g)'/>", &["fePointLight x='@'", "fePointLight y='@'", "fePointLight z='@'", "feDistantLight azimuth='@'", "feDistantLight elevation='@'", "feSpotLight x='@'", "feSpotLight pointsAtX='@'", "feSpotLight pointsAtZ='@'", "feSpotLight specularExponent='@'", "feSpotLight limitingConeAngle='@'"]),
    ("<image href='x.png' width='2' height='3'%/>", &["x='@'", "y='@'", "preserveAspectRatio='xMidYMid meet'", "preserveAspectRatio='xMidYMid'", "preserveAspectRatio='none'", "image-rendering='auto'", "image-rendering='pixelated'"]),
    ("<g><svg%><path d='M1 1h5v9z'/></svg></g>", &["x='@'", "y='@'", "width='10@%'", "height='100%'", "width='100'", "preserveAspectRatio='xMidYMid meet'", "preserveAspectRatio='xMinYMid slice'", "viewBox='0 0 @ 9'", "overflow='hidden'", "overflow='visible'"]),
    ("<symbol id='s'%><path d='M1 1h5v9z'/></symbol><use href='#s'/>", &["x='@'", "width='100%'", "preserveAspectRatio='xMidYMid meet'", "preserveAspectRatio='none'", "viewBox='0 0 @ 9'"]),
    ("<use href='#p'%/><path id='p' d='M1 1h5v9z'/>", &["x='@'", "y='@'", "width='@'"]),
    ("<text%>a</text>", &["x='@'", "y='@'", "dx='@'", "dy='@'", "rotate='@'", "textLength='@'", "lengthAdjust='spacing'", "lengthAdjust='spacingAndGlyphs'", "text-rendering='auto'", "text-rendering='geometricPrecision'"]),
    ("<text x='3' y='4' rotate='9'>a<tspan%>b</tspan></text>", &["x='@'", "y='@'", "dx='@'", "rotate='@'", "lengthAdjust='spacing'"]),
    ("<text x='3' y='4'>a<tspan x='0 5'>b<tspan%>c</tspan></tspan></text>", &["x='@'", "y='@'"]),
    ("<path id='p' d='M1 1h5v9z'/><text><textPath href='#p'%>b</textPath></text>", &["startOffset='@'", "startOffset='@%'", "method='align'", "method='stretch'", "spacing='exact'", "spacing='auto'", "side='left'", "side='right'"]),
    ("<a href='x'%><path d='M1 1h5v9z'/></a>", &["target='_self'", "target='_blank'", "transform='scale(@)'"]),
    ("<path d='M1 1h5v9z'><animate attributeName='opacity' to='0'%/></path>", &["dur='@s'", "begin='@s'", "fill='remove'", "fill='freeze'", "attributeType='auto'", "attributeType='CSS'", "calcMode='linear'", "calcMode='discrete'", "accumulate='none'", "accumulate='sum'", "additive='replace'", "additive='sum'", "restart='always'", "restart='never'", "repeatCount='@'", "by='@'", "from='@'", "values='0;@'", "keyTimes='0;@'"]),
    ("<path d='M1 1h5v9z'><animateTransform attributeName='transform' to='2'%/></path>", &["type='translate'", "type='scale'", "additive='sum'", "calcMode='linear'", "fill='freeze'"]),
    ("<path d='M1 1h5v9z'><animateMotion path='M0 0h9'%/></path>", &["rotate='@'", "rotate='auto'", "calcMode='linear'", "calcMode='paced'", "keyPoints='0;@'"]),
    ("<path d='M1 1h5v9z' transform='rotate(30)'%/>", &["transform-origin='0 0'", "transform-origin='50% 50%'", "transform-origin='@ 2'", "transform-origin='center'"]),
];

/// P13: attributes of every kind at and next to their defaults.
pub fn default_values() {
    let k = sym::pick(DEFAULTS.len());
    let (t, values) = DEFAULTS[k];
    let v = values[sym::pick(values.len())];
    let mut s = String::from(HEAD);
    let (a, b) = t.split_once('%').unwrap_or((t, ""));
    s.push_str(a);
    if !a.ends_with('<') {
        s.push(' ');
    }
    let d = if v.contains('@') { sym::byte(b'0', b'9') as char } else { '0' };
    v.chars().for_each(|c| s.push(if c == '@' { d } else { c }));
    s.push_str(b);
    s.push_str("</svg>");
    keeps(&job!(remove_unknowns_and_defaults: RemoveUnknownsAndDefaults::default()), &s, 1e-6, false, &format!("{k}|{v}"));
}

/// Inheritable or not: values of presentation attributes, the default among them.
const PRESENTATION: &[&str] = &[
    "fill='#00@'",
    "fill='black'",
    "fill='inherit'",
    "fill='red'",
    "fill-opacity='@'",
    "fill-rule='nonzero'",
    "fill-rule='evenodd'",
    "stroke='none'",
    "stroke='red'",
    "stroke-width='@'",
    "stroke-opacity='@'",
    "stroke-linecap='butt'",
    "stroke-linejoin='miter'",
    "stroke-linejoin='round'",
    "stroke-miterlimit='@'",
    "stroke-dasharray='none'",
    "stroke-dasharray='@ 2'",
    "stroke-dashoffset='@'",
    "opacity='@'",
    "visibility='visible'",
    "visibility='hidden'",
    "visibility='collapse'",
    "display='inline'",
    "display='none'",
    "clip-path='none'",
    "clip-path='url(#c)'",
    "mask='none'",
    "filter='none'",
    "marker-end='none'",
    "marker-end='url(#k)'",
    "paint-order='normal'",
    "paint-order='stroke'",
    "shape-rendering='auto'",
    "shape-rendering='crispEdges'",
    "vector-effect='none'",
    "vector-effect='non-scaling-stroke'",
    "color='red'",
    "font-size='medium'",
    "font-size='@'",
    "font-weight='normal'",
    "font-weight='bold'",
    "font-weight='@00'",
    "font-style='normal'",
    "text-anchor='start'",
    "text-anchor='end'",
    "letter-spacing='normal'",
    "letter-spacing='@'",
    "text-decoration='none'",
    "dominant-baseline='auto'",
    "transform='none'",
    "transform='scale(@)'",
    "cursor='auto'",
    "pointer-events='none'",
    "pointer-events='visiblePainted'",
    "data-x='@'",
];

fn name(a: &str) -> &str {
    a.split('=').next().unwrap()
}

/// P13: presentation attributes under a group with another value.
pub fn default_inherited() {
    let a = sym::one(PRESENTATION);
    let rival = sym::pick(7);
    let shape = sym::pick(5);
    // a value of the same property
    let of: &[&str] = &match name(a) {
        "fill" => ["red", "black", "currentColor"],
        "stroke" => ["red", "none", "blue"],
        "fill-rule" => ["evenodd", "nonzero", "inherit"],
        "stroke-linecap" => ["round", "butt", "square"],
        "stroke-linejoin" => ["round", "miter", "bevel"],
        "stroke-dasharray" => ["1 2", "none", "3"],
        "visibility" => ["hidden", "visible", "collapse"],
        "display" => ["none", "inline", "block"],
        "marker-end" => ["url(#k)", "none", "url(#x)"],
        "clip-path" => ["url(#c)", "none", "url(#x)"],
        "paint-order" => ["stroke", "normal", "markers"],
        "shape-rendering" => ["crispEdges", "auto", "optimizeSpeed"],
        "font-size" => ["7", "medium", "9"],
        "font-weight" => ["bold", "normal", "300"],
        "font-style" => ["italic", "normal", "oblique"],
        "text-anchor" => ["end", "start", "middle"],
        "pointer-events" => ["none", "visiblePainted", "all"],
        "mask" => ["url(#m)", "none", "url(#x)"],
        "filter" => ["url(#f)", "none", "url(#x)"],
        "vector-effect" => ["non-scaling-stroke", "none", "inherit"],
        "cursor" => ["pointer", "auto", "help"],
        "color" => ["blue", "red", "black"],
        "text-decoration" => ["underline", "none", "overline"],
        "dominant-baseline" => ["middle", "auto", "hanging"],
        "transform" => ["scale(2)", "none", "rotate(9)"],
        _ => ["2", "1", "0"],
    };
    let mut s = String::from(HEAD);
    let value = if rival == 0 { "" } else { sym::one(of) };
    if rival == 4 {
        s.push_str("<style>.k{");
        s.push_str(name(a));
        s.push(':');
        s.push_str(value);
        s.push_str("}</style>");
    }
    s.push_str(DEFS);
    let outer = |s: &mut String| match rival {
        1 | 5 => {
            s.push(' ');
            s.push_str(name(a));
            s.push_str("='");
            s.push_str(value);
            s.push('\'');
        }
        2 => {
            s.push_str(" style='");
            s.push_str(name(a));
            s.push(':');
            s.push_str(value);
            s.push('\'');
        }
        3 => {
            s.push_str(if name(a) == "color" { " " } else { " color='blue' " });
            s.push_str(name(a));
            s.push_str("='inherit'");
        }
        4 => s.push_str(" class='k'"),
        _ => {}
    };
    s.push_str("<g");
    if rival == 5 {
        // drawn by a use with the value
        s.push_str(" display='none'><g id='u'");
    } else {
        outer(&mut s);
    }
    s.push_str("><g ");
    if rival == 6 {
        s.push_str(name(a));
        s.push_str("='");
        s.push_str(value);
        s.push_str("' id='i'");
    }
    s.push('>');
    s.push_str(["<path d='M1 1h5v9z'", "<text", "<path stroke='#00f' d='M1 1h5v9z'", "<text stroke='#00f'>b<tspan", "<g"][shape]);
    if shape == 2 && name(a) == "stroke" {
        return;
    }
    s.push(' ');
    put(&mut s, a);
    s.push_str(["/>", ">a</text>", "/>", ">a</tspan></text>", "><path d='M1 1h5v9z'/><text>a</text></g>"][shape]);
    s.push_str("</g>");
    if rival == 5 {
        s.push_str("</g></g><use href='#u'");
        outer(&mut s);
        s.push_str("/></svg>");
    } else {
        s.push_str("</g></svg>");
    }
    if rival == 5 {
        // what the use passes on isn't looked at
        sym::known("P13-use");
    }
    keeps(&job!(remove_unknowns_and_defaults: RemoveUnknownsAndDefaults::default()), &s, 1e-6, false, &format!("{shape}|{a}|{rival}|{value}"));
}

const PARENTS: &[(&str, &str)] = &[
    ("", ""),
    ("<g>", "</g>"),
    ("<a href='x'>", "</a>"),
    ("<svg>", "</svg>"),
    ("<switch>", "</switch>"),
    ("<defs><g id='u'>", "</g></defs><use href='#u'/>"),
    ("<symbol id='u'>", "</symbol><use href='#u'/>"),
    ("<marker id='u'>", "</marker><path d='M1 1h5v9z' marker-end='url(#u)'/>"),
    ("<pattern id='u' width='2' height='2'>", "</pattern><path d='M1 1h5v9z' fill='url(#u)'/>"),
    ("<mask id='u'>", "</mask><path d='M1 1h5v9z' mask='url(#u)'/>"),
    ("<clipPath id='u'>", "</clipPath><path d='M1 1h5v9z' clip-path='url(#u)'/>"),
    ("<text>x", "y</text>"),
    ("<text><tspan>x", "y</tspan></text>"),
    ("<text><a>x", "y</a></text>"),
    ("<text><textPath href='#p'>x", "y</textPath></text>"),
    ("<g><a href='y'><g>", "</g></a></g>"),
];

const CHILDREN: &[&str] = &[
    "<path d='M1 1h@v9z'/>",
    "<rect width='@' height='2'/>",
    "<circle r='@'/>",
    "<ellipse rx='@' ry='2'/>",
    "<line x2='@' stroke='red'/>",
    "<polyline points='1 @ 2 3 5 9'/>",
    "<polygon points='1 @ 2 3 5 9'/>",
    "<text x='@'>b</text>",
    "<image href='x.png' width='@' height='2'/>",
    "<use href='#p' x='@'/>",
    "<g opacity='.@'><path d='M1 1h5v9z'/></g>",
    "<svg width='@'><path d='M1 1h5v9z'/></svg>",
    "<switch><path d='M1 1h@v9z'/></switch>",
    "<a href='z'><path d='M1 1h@v9z'/></a>",
    "<foreignObject width='@' height='3'><p>a</p></foreignObject>",
    "<defs><linearGradient id='q'><stop stop-color='red'/><stop offset='.@'/></linearGradient></defs><path d='M1 1h5v9z' fill='url(#q)'/>",
    "<linearGradient id='q'><stop stop-color='red'/><stop offset='.@'/></linearGradient><path d='M1 1h5v9z' fill='url(#q)'/>",
    "<clipPath id='q'><rect width='@' height='2'/></clipPath><path d='M1 1h5v9z' clip-path='url(#q)'/>",
    "<filter id='q'><feOffset dx='@'/></filter><path d='M1 1h5v9z' filter='url(#q)'/>",
    "<marker id='q'><path d='M1 1h@v9z'/></marker><path d='M1 1h5v9z' marker-start='url(#q)'/>",
    "<mask id='q'><path d='M1 1h@v9z'/></mask><path d='M1 1h5v9z' mask='url(#q)'/>",
    "<pattern id='q' width='@' height='2'><path d='M1 1h2v9z'/></pattern><path d='M1 1h5v9z' fill='url(#q)'/>",
    "<symbol id='q'><path d='M1 1h@v9z'/></symbol><use href='#q'/>",
    "<style>path{stroke-width:@;stroke:red}</style><path d='M1 1h5v9z'/>",
    "<tspan x='@'>b</tspan>",
    "<tspan>c<tspan dx='@'>b</tspan></tspan>",
    "<a href='z'>b@</a>",
    "<a href='z'><tspan>b@</tspan></a>",
    "<textPath href='#p'>b@</textPath>",
    "<path d='M1 1h5v9z'><animate attributeName='fill' to='red' dur='@s'/></path>",
    "<path d='M1 1h5v9z'><animateTransform attributeName='transform' to='2' type='scale' dur='@s'/></path>",
    "<path d='M1 1h5v9z'><set attributeName='fill' to='red' begin='@s'/></path>",
    "<path d='M1 1h5v9z'><animateMotion path='M0 0h@'/></path>",
    "<animate attributeName='opacity' to='0' dur='@s'/><path d='M1 1h5v9z'/>",
    "<animateTransform attributeName='transform' to='2' type='scale' dur='@s'/><path d='M1 1h5v9z'/>",
];

/// P13: elements within elements, none of them unknown.
pub fn known_content() {
    let p = sym::pick(PARENTS.len());
    let c = sym::pick(CHILDREN.len());
    // text content elements aren't children of containers, and shapes not of text
    let spans = CHILDREN[c].starts_with("<tspan") || CHILDREN[c].starts_with("<textPath") || CHILDREN[c].contains(">b@");
    let texts = (11..15).contains(&p);
    if texts != spans && !CHILDREN[c].starts_with("<animate") {
        return;
    }
    if p == 10 && c != 23 && (8..29).contains(&c) && c != 9 {
        return;
    }
    // documented: tspan isn't expected in links; definitions aren't in switches
    if CHILDREN[c].contains("><tspan") || p == 13 && CHILDREN[c].contains("<tspan") || p >= 12 && CHILDREN[c].contains("<textPath") || p == 4 && (15..24).contains(&c) || p == 10 && c == 23 {
        return;
    }
    let mut s = String::from(HEAD);
    s.push_str(PARENTS[p].0);
    put(&mut s, CHILDREN[c]);
    s.push_str(PARENTS[p].1);
    s.push_str("<path id='p' d='M1 1h2v9z'/></svg>");
    keeps(&job!(remove_unknowns_and_defaults: RemoveUnknownsAndDefaults::default()), &s, 1e-6, false, &format!("{}|{}", PARENTS[p].0, CHILDREN[c]));
}

/// P13: known attributes on every kind of drawn element.
pub fn known_attributes() {
    const KINDS: &[(&str, &str)] = &[
        ("<path d='M1 1h5v9z'", "/>"),
        ("<rect width='3' height='4'", "/>"),
        ("<circle r='3'", "/>"),
        ("<line x2='3' y2='4'", "/>"),
        ("<polygon points='1 2 3 4 5 9'", "/>"),
        ("<text", ">a</text>"),
        ("<text>z<tspan", ">a</tspan></text>"),
        ("<text><textPath href='#p'", ">a</textPath></text>"),
        ("<g", "><path d='M1 1h5v9z'/></g>"),
        ("<a href='x'", "><path d='M1 1h5v9z'/></a>"),
        ("<svg", "><path d='M1 1h5v9z'/></svg>"),
        ("<use href='#p'", "/>"),
        ("<switch", "><path d='M1 1h5v9z'/></switch>"),
        ("<image href='x.png' width='3' height='4'", "/>"),
        ("<foreignObject width='3' height='4'", "/>"),
        ("<symbol id='s'", "><path d='M1 1h5v9z'/></symbol><use href='#s'/>"),
        ("<clipPath id='s'", "><path d='M1 1h5v9z'/></clipPath><path d='M1 1h5v9z' clip-path='url(#s)'/>"),
        ("<mask id='s'", "><path d='M1 1h5v9z'/></mask><path d='M1 1h5v9z' mask='url(#s)'/>"),
        ("<pattern id='s' width='3' height='4'", "><path d='M1 1h5v9z'/></pattern><path d='M1 1h5v9z' fill='url(#s)'/>"),
        ("<marker id='s'", "><path d='M1 1h5v9z'/></marker><path d='M1 1h5v9z' marker-end='url(#s)'/>"),
        ("<linearGradient id='s'", "><stop stop-color='red'/><stop offset='1'/></linearGradient><path d='M1 1h5v9z' fill='url(#s)'/>"),
        ("<linearGradient id='s'><stop stop-color='red'", "/><stop offset='1'/></linearGradient><path d='M1 1h5v9z' fill='url(#s)'/>"),
    ];
    let k = sym::pick(KINDS.len());
    let both = sym::pick(2) == 1;
    let a = if both { sym::one(ATTRS) } else { "" };
    let b = if both { "" } else { sym::one(PRESENTATION) };
    let ids = k >= 15 && a == " id='i'";
    if ids {
        return;
    }
    let mut s = String::from(HEAD);
    s.push_str("<style>.k{stroke:red}#i{stroke-width:2}</style>");
    s.push_str(DEFS);
    s.push_str("<g fill='#0f0' stroke='#00f' visibility='visible'>");
    s.push_str(KINDS[k].0);
    put(&mut s, a);
    s.push(' ');
    put(&mut s, b);
    s.push_str(KINDS[k].1);
    s.push_str("</g><path id='p' d='M1 1h2v9z'/></svg>");
    keeps(&job!(remove_unknowns_and_defaults: RemoveUnknownsAndDefaults::default()), &s, 1e-6, false, &format!("{k}|{a}{b}"));
}

const STROKES: &[&str] = &[
    "",
    " stroke='none'",
    " stroke='red'",
    " stroke='currentColor'",
    " stroke='url(#l)'",
    " stroke='red' stroke-width='@'",
    " stroke='red' stroke-opacity='@'",
    " stroke='red' stroke-opacity='.@' stroke-width='@'",
    " stroke-width='@'",
    " stroke-opacity='@'",
    " stroke='red' stroke-dasharray='@'",
    " style='stroke:red'",
    " style='stroke:red;stroke-width:@'",
    " style='stroke:none'",
    " style='stroke-opacity:@'",
    " stroke='red' style='stroke-width:@'",
    " stroke='inherit'",
    " stroke-linecap='round'",
];

const FILLS: &[&str] = &[
    "",
    " fill='none'",
    " fill='red'",
    " fill='transparent'",
    " fill-opacity='@'",
    " fill='red' fill-opacity='.@'",
    " fill='none' fill-opacity='@' fill-rule='evenodd'",
    " style='fill:none'",
    " style='fill:red;fill-opacity:@'",
    " fill='inherit'",
    " fill-rule='evenodd'",
    " fill='url(#l)' fill-opacity='@'",
    " fill='none' style='fill:red'",
    " fill='red' fill-opacity='0' style='fill:blue'",
];

/// P13: strokes and fills that don't show.
pub fn useless_paint() {
    let stroke = sym::pick(2) == 1;
    let list = if stroke { STROKES } else { FILLS };
    let g = sym::one(list);
    let a = sym::one(list);
    let more = sym::one(&["", " marker-end='url(#k)'", " id='i'", " style='marker-start:url(#k)'", " class='k'", " stroke='red' fill='none'"]);
    let shape = sym::pick(4);
    if a.contains("style=") && more.contains("style=") || more.starts_with(" stroke") && (!g.is_empty() || !a.is_empty()) {
        return;
    }
    let options = RemoveUselessStrokeAndFill { stroke: true, fill: true, remove_none: false };
    let mut s = String::from(HEAD);
    s.push_str(DEFS);
    if more == " class='k'" {
        s.push_str("<style>.k{stroke-width:2;fill:red}</style>");
    }
    s.push_str("<g");
    put0(&mut s, g);
    s.push_str([">", "><g id='z'>", " id='z'>", ">"][shape]);
    s.push_str(if shape == 3 { "<text" } else { "<path d='M1 1h5v9z'" });
    put0(&mut s, a);
    s.push_str(more);
    s.push_str(if shape == 3 { ">a<tspan stroke='#00f'>b</tspan></text>" } else { "><set attributeName='x' to='1'/></path>" });
    s.push_str(["</g>", "</g></g><use href='#z' stroke='red'/>", "</g><use href='#z' fill='red'/>", "</g>"][shape]);
    s.push_str("</svg>");
    if more.contains("marker") && (s.contains("stroke-width='0'") || s.contains("stroke-width:0")) {
        sym::known("P13-marker");
    }
    keeps(&job!(remove_useless_stroke_and_fill: options), &s, 1e-6, false, &format!("{shape}|{g}|{a}|{more}"));
}

/// Like `put` with digits from 0.
fn put0(s: &mut String, t: &str) {
    for c in t.chars() {
        s.push(if c == '@' { sym::byte(b'0', b'9') as char } else { c });
    }
}

/// P13: attributes of groups that aren't inherited, and deprecated ones.
pub fn group_attributes() {
    let job = sym::pick(4);
    let a = sym::one(PRESENTATION);
    let b = sym::one(ATTRS);
    let kind = sym::one(&["g", "a", "svg", "switch"]);
    let mut s = String::from(HEAD);
    s.push_str("<style>.k{stroke:red}#i{stroke-width:2}</style>");
    s.push_str(DEFS);
    s.push('<');
    s.push_str(kind);
    s.push(' ');
    put(&mut s, a);
    s.push('>');
    s.push_str(if b.contains("font") || a.contains("text") { "<text x='3'" } else { "<path d='M1 1h5v9z'" });
    put(&mut s, b);
    s.push_str(if b.contains("font") || a.contains("text") { ">a</text></" } else { "/></" });
    s.push_str(kind);
    s.push_str("></svg>");
    let j = match job {
        0 => job!(remove_non_inheritable_group_attrs: RemoveNonInheritableGroupAttrs(true)),
        1 => job!(remove_deprecated_attrs: RemoveDeprecatedAttrs { remove_any: false }),
        2 => job!(remove_empty_attrs: RemoveEmptyAttrs(true)),
        _ => job!(cleanup_enable_background: CleanupEnableBackground(true)),
    };
    keeps(&j, &s, 1e-6, false, &format!("{job}|{kind}|{a}|{b}"));
}

/// P13: empty attributes.
pub fn empty_attributes() {
    let a = sym::one(&["d", "points", "fill", "stroke", "transform", "class", "style", "id", "clip-path", "x", "width", "href", "systemLanguage", "requiredFeatures", "requiredExtensions", "values", "font-family", "data-x", "opacity", "display", "visibility", "stroke-dasharray"]);
    let e = sym::one(&["g", "path", "rect", "text", "use", "svg", "switch"]);
    let v = sym::one(&["", " ", "@"]);
    let mut s = String::from(HEAD);
    s.push_str("<g fill='red' display='inline'><");
    s.push_str(e);
    s.push(' ');
    s.push_str(a);
    s.push_str("='");
    for c in v.chars() {
        s.push(if c == '@' { sym::of(b" a0\n") as char } else { c });
    }
    s.push_str("'");
    s.push_str(match e {
        "path" if a != "d" => " d='M1 1h5v9z'/>",
        "rect" if a != "width" => " width='2' height='3'/>",
        "text" => ">a</text>",
        "g" | "svg" | "switch" => "><path d='M1 1h5v9z'/>",
        "use" if a != "href" => " href='#p'/>",
        _ => "/>",
    });
    if matches!(e, "g" | "svg" | "switch") {
        s.push_str("</");
        s.push_str(e);
        s.push('>');
    }
    s.push_str("</g><path id='p' d='M1 1h2v9z'/></svg>");
    let t = run(&job!(remove_empty_attrs: RemoveEmptyAttrs(true)), &s);
    // an empty attribute is an error or as good as none, except for tests
    compare(&s, &t, 1e-6, false, &format!("{e}|{a}|{v}"));
    let (Ok(x), Ok(y)) = (roxmltree::Document::parse(&s), roxmltree::Document::parse(&t)) else { return };
    let count = |d: &roxmltree::Document| d.descendants().map(|e| e.attributes().filter(|a| !a.value().trim().is_empty()).count()).sum::<usize>();
    // path data without commands is as good as none
    sym::check(count(&x) == count(&y) || a == "d" || a == "points", &format!("attribute with a value dropped: {e}|{a}"));
    let n = |d: &roxmltree::Document| d.descendants().filter(|x| x.is_element() && attr(x, a).is_some()).count();
    if n(&y) < n(&x) {
        sym::cover(1);
    }
}
