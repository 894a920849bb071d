package geojson

// ---- C20: feature properties ----
extern fmt.Errorf(format, a)(err)
ensures err != nil

extern errors.New(text)(err)
ensures err != nil

// the property is set and has the type
pure holdsbool(m map[string]interface{}, k string) bool = has(m, k) && is(m[k], bool)
pure holdsint(m map[string]interface{}, k string) bool = has(m, k) && is(m[k], int)
pure holdsfloat(m map[string]interface{}, k string) bool = has(m, k) && is(m[k], float64)
pure holdsstring(m map[string]interface{}, k string) bool = has(m, k) && is(m[k], string)
pure inintrange(x float) bool = x > -9223372036854775808.0 && x < 9223372036854775808.0

func geojson.(*Feature).SetProperty(f, key, value)()
requires f != nil
modifies *f, mapof(f.Properties)
ensures [C20] "stored": f.Properties != nil && has(f.Properties, key) && f.Properties[key] === value
ensures [C20] "other properties kept": forall k string :: {f.Properties[k]} k != key ==> has(f.Properties, k) == old(has(f.Properties, k)) && f.Properties[k] === old(f.Properties[k])
ensures [C20] "same map": old(f.Properties) != nil ==> f.Properties == old(f.Properties)
ensures [C20] "rest of the feature kept": f.ID === old(f.ID) && f.Type === old(f.Type) && f.BoundingBox === old(f.BoundingBox) && f.Geometry === old(f.Geometry) && f.CRS === old(f.CRS)

func geojson.(*Feature).PropertyBool(f, key)(r, err)
requires f != nil
ensures [C20] "the stored value": holdsbool(f.Properties, key) ==> err == nil && r === as(f.Properties[key], bool)
ensures [C20] "else the zero value and an error": !holdsbool(f.Properties, key) ==> err != nil && r === false

func geojson.(*Feature).PropertyFloat64(f, key)(r, err)
requires f != nil
ensures [C20] "the stored value": holdsfloat(f.Properties, key) ==> err == nil && r === as(f.Properties[key], float64)
ensures [C20] "else the zero value and an error": !holdsfloat(f.Properties, key) ==> err != nil && r === 0

func geojson.(*Feature).PropertyString(f, key)(r, err)
requires f != nil
ensures [C20] "the stored value": holdsstring(f.Properties, key) ==> err == nil && r === as(f.Properties[key], string)
ensures [C20] "else the zero value and an error": !holdsstring(f.Properties, key) ==> err != nil && r === ""

func geojson.(*Feature).PropertyInt(f, key)(r, err)
requires f != nil
ensures [C20] "the stored value": holdsint(f.Properties, key) ==> err == nil && r == as(f.Properties[key], int)
ensures [C20] "a float truncated": holdsfloat(f.Properties, key) ==> err == nil && (inintrange(as(f.Properties[key], float64)) ==> r == f2i(as(f.Properties[key], float64)))
ensures [C20] "else the zero value and an error": !holdsint(f.Properties, key) && !holdsfloat(f.Properties, key) ==> err != nil && r == 0

func geojson.(*Feature).PropertyMustBool(f, key, def)(r)
requires f != nil
ensures [C20] "the stored value": holdsbool(f.Properties, key) ==> r === as(f.Properties[key], bool)
ensures [C20] "else the first default": !holdsbool(f.Properties, key) && len(def) > 0 ==> r === def[0]
ensures [C20] "else the zero value": !holdsbool(f.Properties, key) && len(def) == 0 ==> r === false

func geojson.(*Feature).PropertyMustFloat64(f, key, def)(r)
requires f != nil
ensures [C20] "the stored value": holdsfloat(f.Properties, key) ==> r === as(f.Properties[key], float64)
ensures [C20] "else the first default": !holdsfloat(f.Properties, key) && len(def) > 0 ==> r === def[0]
ensures [C20] "else the zero value": !holdsfloat(f.Properties, key) && len(def) == 0 ==> r === 0

func geojson.(*Feature).PropertyMustString(f, key, def)(r)
requires f != nil
ensures [C20] "the stored value": holdsstring(f.Properties, key) ==> r === as(f.Properties[key], string)
ensures [C20] "else the first default": !holdsstring(f.Properties, key) && len(def) > 0 ==> r === def[0]
ensures [C20] "else the zero value": !holdsstring(f.Properties, key) && len(def) == 0 ==> r === ""

func geojson.(*Feature).PropertyMustInt(f, key, def)(r)
requires f != nil
ensures [C20] "the stored value": holdsint(f.Properties, key) ==> r == as(f.Properties[key], int)
ensures [C20] "a float truncated": holdsfloat(f.Properties, key) && inintrange(as(f.Properties[key], float64)) ==> r == f2i(as(f.Properties[key], float64))
ensures [C20] "else the first default": !holdsint(f.Properties, key) && !holdsfloat(f.Properties, key) && len(def) > 0 ==> r == def[0]
ensures [C20] "else the zero value": !holdsint(f.Properties, key) && !holdsfloat(f.Properties, key) && len(def) == 0 ==> r == 0
