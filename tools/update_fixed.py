import subprocess,json,os
m={'waypoints given':'C21','polygon of a cone':'C10','starshaped hull of a non-convex polygon was wrong':'C09','kernel of starshaped polygons was wrong':'C19','repeated vertices':'C27','queries of a cluster obstacle':'C02','name of an obstacle cluster':'C05','equilateral_triangle moved':'C25','drawing an obstacle cluster':'C28','kernel point selection failed with a clock':'C04', 'convex_hull could loop':'C24','Line.intersects':'C23','Cone.polygon':'C10','Cone.intersection_same_apex':'C10','generate_convex_polygon':'C25','polygon boundary points on':'C14','Ellipse.tangent_points':'C15','line_intersection failed':'C16','Ellipse.line_intersection':'C16','StarshapedPolygon kernel was':'C19','motion models':'C21','Interval':'C21','set_xr with':'C12','polygon of a dilated Ellipse':'C20','enclosing ball':'C20','copy of':'C22','normal and set_xr':'C26','boundary mapping of Starshaped':'C26','vel_intertial_frame':'C26','kernel points of non-star':'C02','cluster_and_starify failed for convex':'C01','kernel point selection failed':'C01','kernel point selection did not':'C04','clusters without cluster obstacle':'C04','the history was not':'C04','make_convex used':'C06','clusters of an incomplete':'C05','exclude_obstacles failed':'C07','kernel points were selected':'C02','starshaped hull of a polygon':'C09'}
p='/verif/known_findings.json'
d=json.load(open(p)) if os.path.exists(p) else {'findings':[],'fixed':[]}
out=[]
for l in subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s','a65cfc0..HEAD'],text=True).splitlines():
    h,s=l.split(' ',1)
    s=s.replace('fix: ','',1)
    pid=[v for k,v in m.items() if s.startswith(k)]
    if not pid: print('UNMAPPED',l); continue
    out.append('fixed: property=%s %s %s'%(pid[0],h,s))
d['fixed']=out
json.dump(d,open(p,'w'),indent=1)
