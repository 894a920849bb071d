package geo

property C01 level=proof roots=geo.BoundingBox,geo.calBox bounded=geo.BoundingBox
property C02 level=proof roots=geo.NewBox,geo.NewRectBox,geo.IsPointInBox,geo.(*Box).Intersect,geo.(*Box).Contain,geo.(*Box).Size,geo.(*Box).Union,geo.BoxUnion bounded=geo.BoxUnion
property C03 level=proof roots=geo.NewLinearRing,geo.NewLinearRingZ,geo.NewRingFromLine,geo.NewRingFromLineZ,geo.NewPolygonFromPois,geo.NewPolygonZFromPois,geo.NewPolygon,geo.NewPolygonZ,geo.(LineString).ToRing,geo.(LineStringZ).ToRing bounded=geo.NewLinearRing,geo.NewLinearRingZ,geo.NewRingFromLine,geo.NewRingFromLineZ,geo.NewPolygonFromPois,geo.NewPolygonZFromPois,geo.(LineString).ToRing,geo.(LineStringZ).ToRing
property C04 level=proof roots=geo.(*LineString).Append,geo.(*LineString).DelPoint,geo.(*LineString).InsertPoint,geo.(*LineString).Reverse,geo.(*LineString).SetPoint,geo.(*LineStringZ).Append,geo.(*LineStringZ).Reverse,geo.(LineString).GetEndPoint,geo.(LineString).GetFirstPoint,geo.(LineString).GetPoint,geo.(LineString).GetPointCount,geo.(LineString).GetPointSet,geo.(LineString).SplitByIndex,geo.(LineStringZ).GetEndPoint,geo.(LineStringZ).GetFirstPoint,geo.(LineStringZ).GetPointCount,geo.(LineStringZ).GetPointSet bounded=geo.(*LineString).Append,geo.(*LineString).DelPoint,geo.(*LineString).InsertPoint,geo.(*LineString).Reverse,geo.(*LineString).SetPoint,geo.(*LineStringZ).Append,geo.(*LineStringZ).Reverse,geo.(LineString).GetEndPoint,geo.(LineString).GetFirstPoint,geo.(LineString).GetPoint,geo.(LineString).GetPointCount,geo.(LineString).GetPointSet,geo.(LineString).SplitByIndex,geo.(LineStringZ).GetEndPoint,geo.(LineStringZ).GetFirstPoint
property C05 level=proof roots=geo.(Point).Equal,geo.(PointZ).Equal,geo.(LineString).Equal,geo.(LineStringZ).Equal bounded=geo.(Point).Equal,geo.(PointZ).Equal,geo.(LineString).Equal,geo.(LineStringZ).Equal
property C06 level=proof roots=geo.PointDistance,geo.(Point).Distance,geo.EuclideanDistance,geo.EuclideanDis,geo.EuclideanDisZ,geo.CoordDistance,geo.(LineString).Length bounded=geo.PointDistance,geo.(Point).Distance,geo.EuclideanDistance,geo.EuclideanDis,geo.EuclideanDisZ,geo.CoordDistance,geo.(LineString).Length
property C07 level=proof roots=geo.PointToLineDistance,geo.PointToSegmentDistance,geo.PointHitLineString,geo.PointPolygonDistance bounded=geo.PointToLineDistance,geo.PointToSegmentDistance,geo.PointHitLineString,geo.PointPolygonDistance
property C08 level=proof roots=geo.GetArea,geo.(Polygon).IsCCW,geo.Centroid,geo.MultiPolyArea bounded=geo.GetArea,geo.(Polygon).IsCCW,geo.Centroid,geo.MultiPolyArea
property C09 bounded=geo.ConvexHull,geo.(hullPts).Less
property C10 level=proof roots=geo.DouglasPeuckerSimplify bounded=geo.DouglasPeuckerSimplify
property C11 level=proof roots=geo.IsPointInPolygon,geo.IsPointOnSegment bounded=geo.IsPointInPolygon,geo.IsPointOnSegment
property C12 level=proof roots=geo.SegmentRelation,geo.LineRelation,geo.(Polygon).SelfIntersect,geo.LinePolyRelation,geo.LinearPolyRelation,geo.PolyRelation,geo.SegPolyRelation lemmas=crossing_par,crossing_point,point_crossing,meeting_sym bounded=geo.SegmentRelation,geo.LineRelation,geo.(Polygon).SelfIntersect,geo.LinePolyRelation,geo.LinearPolyRelation,geo.PolyRelation,geo.SegPolyRelation
property C13 roots=geo.(*Rtree).SearchIntersect,geo.(*Rtree).SearchIntersectWithCond,geo.(*Rtree).chooseNode,geo.(*node).computeBoundingBox,geo.(*node).getEntry,geo.(*node).pickSeeds,geo.pickNext,geo.assign,geo.assignGroup,geo.(*node).split bounded=geo.NewTree,geo.NewTreeWith,geo.NewMinMaxTree,geo.(*Rtree).Insert,geo.(*Rtree).SearchIntersect,geo.(*Rtree).SearchIntersectWithCond,geo.(*Rtree).SearchBySpatialID,geo.(*Rtree).UpsertBySpatialID,geo.(*Rtree).Delete
property C14 roots=geo.(*Rtree).findLeaf bounded=geo.(*Rtree).Insert,geo.(*Rtree).Delete,geo.(*Rtree).DeleteBySpatialID,geo.(*Rtree).UpsertBySpatialID,geo.(*Rtree).Size,geo.(*Rtree).SearchIntersect
property C15 roots=geo.(*Rtree).NearestNeighbors,geo.(entrySlice).Less,geo.(entrySlice).Swap,geo.(entrySlice).Len bounded=geo.(*Rtree).NearestNeighbors,geo.(*Rtree).Insert
property C16 level=proof roots=wkt.Encode bounded=wkt.Encode
property C17 bounded=wkt.Encode,wkt.Decode
property C18 level=proof roots=geojson.MarshalGeo bounded=geojson.MarshalGeo
property C19 level=proof roots=geojson.UnmarshalGeo,geojson.NewFeature,geojson.(*Feature).SetBoundingBox bounded=geojson.MarshalGeo,geojson.UnmarshalGeo,geojson.NewFeature,geojson.(*Feature).SetBoundingBox
property C20 level=proof roots=geojson.(*Feature).SetProperty,geojson.(*Feature).PropertyBool,geojson.(*Feature).PropertyInt,geojson.(*Feature).PropertyFloat64,geojson.(*Feature).PropertyString,geojson.(*Feature).PropertyMustBool,geojson.(*Feature).PropertyMustInt,geojson.(*Feature).PropertyMustFloat64,geojson.(*Feature).PropertyMustString bounded=geojson.(*Feature).SetProperty,geojson.(*Feature).PropertyBool,geojson.(*Feature).PropertyInt,geojson.(*Feature).PropertyFloat64,geojson.(*Feature).PropertyString,geojson.(*Feature).PropertyMustBool,geojson.(*Feature).PropertyMustInt,geojson.(*Feature).PropertyMustFloat64,geojson.(*Feature).PropertyMustString
property C21 level=proof roots=geo.FromLatLon,geo.ToLatLon,geo.ValidateLatLone bounded=geo.FromLatLon,geo.ToLatLon
property C22 level=proof roots=geo.WGS84toGCJ02,geo.GCJ02toWGS84,geo.WGS84toBD09,geo.BD09toWGS84,geo.GCJ02toBD09,geo.BD09toGCJ02 bounded=geo.WGS84toGCJ02,geo.GCJ02toWGS84,geo.WGS84toBD09,geo.BD09toWGS84,geo.GCJ02toBD09,geo.BD09toGCJ02
property C23 level=proof roots=geo.GeohashEncode,geo.GeohashGetCenter,geo.GeohashGetBoundary,geo.GeohashGetAllNeighbors,geo.S2GetCellID,geo.S2GetCenter,geo.S2GetBoundary,geo.S2GetAllNeighbors,geo.S2RegionCoverer bounded=geo.GeohashEncode,geo.GeohashGetCenter,geo.GeohashGetBoundary,geo.GeohashGetAllNeighbors,geo.S2GetCellID,geo.S2GetCenter,geo.S2GetBoundary,geo.S2GetAllNeighbors,geo.S2RegionCoverer
property C24 level=proof roots=geo.Add,geo.(Vector2).Add,geo.(Vector2).Sub,geo.(*Vector2).Normalize,geo.(*Vector2).Divide,geo.(*Vector2).Multiply,geo.(*Vector2).Dot,geo.(*Vector2).Cross,geo.(*Vector2).Length,geo.(*Vector2).LengthSq,geo.(*Vector2).Equal,geo.(*Vector2).Clone,geo.Normalize,geo.CacAngle,geo.GetAzimuth,geo.NewVector2,geo.ConvertPointToVector,geo.ConvertSegToVector bounded=geo.Add,geo.(Vector2).Add,geo.(Vector2).Sub,geo.(*Vector2).Normalize,geo.(*Vector2).Divide,geo.(*Vector2).Multiply,geo.(*Vector2).Dot,geo.(*Vector2).Cross,geo.(*Vector2).Length,geo.(*Vector2).LengthSq,geo.(*Vector2).Equal,geo.(*Vector2).Clone,geo.Normalize,geo.CacAngle,geo.GetAzimuth
property C25 level=proof roots=geo.HausdorffDistance bounded=geo.HausdorffDistance
property C26 level=proof roots=geo.RotateCW,geo.RotateCCW,geo.(Point).Buffer,geo.getBufferCoordsByRadian bounded=geo.RotateCW,geo.RotateCCW,geo.(Point).Buffer,geo.getBufferCoordsByRadian
property C27 level=proof roots=geo.FromLatLon,geo.ToLatLon bounded=geo.FromLatLon,geo.ToLatLon
property C28 bounded=geo.FromLatLon,geo.ToLatLon
property C29 bounded=geo.S2RegionCoverer
property C30 bounded=geojson.UnmarshalFeature,geojson.UnmarshalFeatureCollection,geojson.(Feature).MarshalJSON,geojson.(FeatureCollection).MarshalJSON,geojson.(*FeatureCollection).AddFeature
