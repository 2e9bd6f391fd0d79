// Generated once from the public prototypes: C function, Fortran entry point, names of the C arguments.
FN(MMG2D_Chk_meshData, mmg2d_chk_meshdata_, "mesh,met")
FN(MMG2D_Compute_eigenv, mmg2d_compute_eigenv_, "m,lambda,vp")
FN(MMG2D_Free_allSols, mmg2d_free_allsols_, "mesh,sol")
FN(MMG2D_Free_edges, mmg2d_free_edges_, "mesh")
FN(MMG2D_Free_solutions, mmg2d_free_solutions_, "mesh,sol")
FN(MMG2D_Free_triangles, mmg2d_free_triangles_, "mesh")
FN(MMG2D_Get_adjaTri, mmg2d_get_adjatri_, "mesh,kel,listri")
FN(MMG2D_Get_adjaVertices, mmg2d_get_adjavertices_, "mesh,ip,lispoi")
FN(MMG2D_Get_adjaVerticesFast, mmg2d_get_adjaverticesfast_, "mesh,ip,start,lispoi")
FN(MMG2D_Get_edge, mmg2d_get_edge_, "mesh,e0,e1,ref,isRidge,isRequired")
FN(MMG2D_Get_edges, mmg2d_get_edges_, "mesh,edges,refs,areRidges,areRequired")
FN(MMG2D_Get_ithSol_inSolsAtVertices, mmg2d_get_ithsol_insolsatvertices_, "sol,i,s,pos")
FN(MMG2D_Get_ithSols_inSolsAtVertices, mmg2d_get_ithsols_insolsatvertices_, "sol,i,s")
FN(MMG2D_Get_meshSize, mmg2d_get_meshsize_, "mesh,np,nt,nquad,na")
FN(MMG2D_Get_nonBdyEdge, mmg2d_get_nonbdyedge_, "mesh,e0,e1,ref,idx")
FN(MMG2D_Get_numberOfNonBdyEdges, mmg2d_get_numberofnonbdyedges_, "mesh,nb_edges")
FN(MMG2D_Get_quadrilateral, mmg2d_get_quadrilateral_, "mesh,v0,v1,v2,v3,ref,isRequired")
FN(MMG2D_Get_quadrilaterals, mmg2d_get_quadrilaterals_, "mesh,quadra,refs,areRequired")
FN(MMG2D_Get_scalarSol, mmg2d_get_scalarsol_, "met,s")
FN(MMG2D_Get_scalarSols, mmg2d_get_scalarsols_, "met,s")
FN(MMG2D_Get_solsAtVerticesSize, mmg2d_get_solsatverticessize_, "mesh,sol,nsols,nentities,typSol")
FN(MMG2D_Get_solSize, mmg2d_get_solsize_, "mesh,sol,typEntity,np,typSol")
FN(MMG2D_Get_tensorSol, mmg2d_get_tensorsol_, "met,m11,m12,m22")
FN(MMG2D_Get_tensorSols, mmg2d_get_tensorsols_, "met,sols")
FN(MMG2D_Get_triangle, mmg2d_get_triangle_, "mesh,v0,v1,v2,ref,isRequired")
FN(MMG2D_Get_triangleQuality, mmg2d_get_trianglequality_, "mesh,met,k")
FN(MMG2D_Get_triangles, mmg2d_get_triangles_, "mesh,tria,refs,areRequired")
FN(MMG2D_Get_triFromEdge, mmg2d_get_trifromedge_, "mesh,ked,ktri,ied")
FN(MMG2D_Get_trisFromEdge, mmg2d_get_trisfromedge_, "mesh,ked,ktri,ied")
FN(MMG2D_Get_vectorSol, mmg2d_get_vectorsol_, "met,vx,vy")
FN(MMG2D_Get_vectorSols, mmg2d_get_vectorsols_, "met,sols")
FN(MMG2D_Get_vertex, mmg2d_get_vertex_, "mesh,c0,c1,ref,isCorner,isRequired")
FN(MMG2D_Get_vertices, mmg2d_get_vertices_, "mesh,vertices,refs,areCorners,areRequired")
FN(MMG2D_GetByIdx_vertex, mmg2d_getbyidx_vertex_, "mesh,c0,c1,ref,isCorner,isRequired,idx")
FN(MMG2D_Init_fileNames, mmg2d_init_filenames_, "mesh,sol")
FN(MMG2D_Init_parameters, mmg2d_init_parameters_, "mesh")
FN(MMG2D_loadAllSols, mmg2d_loadallsols_, "mesh,sol,filename")
FN(MMG2D_loadGenericMesh, mmg2d_loadgenericmesh_, "mesh,met,sol,filename")
FN(MMG2D_loadMesh, mmg2d_loadmesh_, "mesh,filename")
FN(MMG2D_loadMshMesh, mmg2d_loadmshmesh_, "mesh,sol,filename")
FN(MMG2D_loadMshMesh_and_allData, mmg2d_loadmshmesh_and_alldata_, "mesh,sol,filename")
FN(MMG2D_loadSol, mmg2d_loadsol_, "mesh,sol,filename")
FN(MMG2D_mmg2dlib, mmg2d_mmg2dlib_, "mesh,sol")
FN(MMG2D_mmg2dls, mmg2d_mmg2dls_, "mesh,sol,met")
FN(MMG2D_mmg2dmesh, mmg2d_mmg2dmesh_, "mesh,sol")
FN(MMG2D_Reset_verticestags, mmg2d_reset_verticestags_, "mesh")
FN(MMG2D_saveAllSols, mmg2d_saveallsols_, "mesh,sol,filename")
FN(MMG2D_saveGenericMesh, mmg2d_savegenericmesh_, "mesh,sol,filename")
FN(MMG2D_saveMesh, mmg2d_savemesh_, "mesh,x")
FN(MMG2D_saveMshMesh, mmg2d_savemshmesh_, "mesh,sol,filename")
FN(MMG2D_saveMshMesh_and_allData, mmg2d_savemshmesh_and_alldata_, "mesh,sol,filename")
FN(MMG2D_saveSol, mmg2d_savesol_, "mesh,sol,filename")
FN(MMG2D_saveTetgenMesh, mmg2d_savetetgenmesh_, "mesh,x")
FN(MMG2D_Set_constantSize, mmg2d_set_constantsize_, "mesh,met")
FN(MMG2D_Set_corner, mmg2d_set_corner_, "mesh,k")
FN(MMG2D_Set_dparameter, mmg2d_set_dparameter_, "mesh,sol,dparam,val")
FN(MMG2D_Set_edge, mmg2d_set_edge_, "mesh,v0,v1,ref,pos")
FN(MMG2D_Set_edges, mmg2d_set_edges_, "mesh,edges,refs")
FN(MMG2D_Set_inputMeshName, mmg2d_set_inputmeshname_, "mesh,meshin")
FN(MMG2D_Set_inputParamName, mmg2d_set_inputparamname_, "mesh,fparamin")
FN(MMG2D_Set_inputSolName, mmg2d_set_inputsolname_, "mesh,sol,solin")
FN(MMG2D_Set_iparameter, mmg2d_set_iparameter_, "mesh,sol,iparam,val")
FN(MMG2D_Set_ithSol_inSolsAtVertices, mmg2d_set_ithsol_insolsatvertices_, "sol,i,s,pos")
FN(MMG2D_Set_ithSols_inSolsAtVertices, mmg2d_set_ithsols_insolsatvertices_, "sol,i,s")
FN(MMG2D_Set_localParameter, mmg2d_set_localparameter_, "mesh,sol,typ,ref,hmin,hmax,hausd")
FN(MMG2D_Set_lsBaseReference, mmg2d_set_lsbasereference_, "mesh,sol,br")
FN(MMG2D_Set_meshSize, mmg2d_set_meshsize_, "mesh,np,nt,nquad,na")
FN(MMG2D_Set_multiMat, mmg2d_set_multimat_, "mesh,sol,ref,split,rmin,rplus")
FN(MMG2D_Set_outputMeshName, mmg2d_set_outputmeshname_, "mesh,meshout")
FN(MMG2D_Set_outputSolName, mmg2d_set_outputsolname_, "mesh,sol,solout")
FN(MMG2D_Set_parallelEdge, mmg2d_set_paralleledge_, "mesh,k")
FN(MMG2D_Set_quadrilateral, mmg2d_set_quadrilateral_, "mesh,v0,v1,v2,v3,ref,pos")
FN(MMG2D_Set_quadrilaterals, mmg2d_set_quadrilaterals_, "mesh,quadra,refs")
FN(MMG2D_Set_requiredEdge, mmg2d_set_requirededge_, "mesh,k")
FN(MMG2D_Set_requiredTriangle, mmg2d_set_requiredtriangle_, "mesh,k")
FN(MMG2D_Set_requiredVertex, mmg2d_set_requiredvertex_, "mesh,k")
FN(MMG2D_Set_scalarSol, mmg2d_set_scalarsol_, "met,s,pos")
FN(MMG2D_Set_scalarSols, mmg2d_set_scalarsols_, "met,s")
FN(MMG2D_Set_solsAtVerticesSize, mmg2d_set_solsatverticessize_, "mesh,sol,nsols,nentities,typSol")
FN(MMG2D_Set_solSize, mmg2d_set_solsize_, "mesh,sol,typEntity,np,typSol")
FN(MMG2D_Set_tensorSol, mmg2d_set_tensorsol_, "met,m11,m12,m22,pos")
FN(MMG2D_Set_tensorSols, mmg2d_set_tensorsols_, "met,sols")
FN(MMG2D_Set_triangle, mmg2d_set_triangle_, "mesh,v0,v1,v2,ref,pos")
FN(MMG2D_Set_triangles, mmg2d_set_triangles_, "mesh,tria,refs")
FN(MMG2D_Set_vectorSol, mmg2d_set_vectorsol_, "met,vx,vy,pos")
FN(MMG2D_Set_vectorSols, mmg2d_set_vectorsols_, "met,sols")
FN(MMG2D_Set_vertex, mmg2d_set_vertex_, "mesh,c0,c1,ref,pos")
FN(MMG2D_Set_vertices, mmg2d_set_vertices_, "mesh,vertices,refs")
FN(MMG2D_setfunc, mmg2d_setfunc_, "mesh,met")
FN(MMG2D_Unset_corner, mmg2d_unset_corner_, "mesh,k")
FN(MMG2D_Unset_requiredEdge, mmg2d_unset_requirededge_, "mesh,k")
FN(MMG2D_Unset_requiredTriangle, mmg2d_unset_requiredtriangle_, "mesh,k")
FN(MMG2D_Unset_requiredVertex, mmg2d_unset_requiredvertex_, "mesh,k")
FN(MMG3D_Add_tetrahedron, mmg3d_add_tetrahedron_, "mesh,v0,v1,v2,v3,ref")
FN(MMG3D_Add_vertex, mmg3d_add_vertex_, "mesh,c0,c1,c2,ref")
FN(MMG3D_Chk_meshData, mmg3d_chk_meshdata_, "mesh,met")
FN(MMG3D_Clean_isoSurf, mmg3d_clean_isosurf_, "mesh")
FN(MMG3D_Compute_eigenv, mmg3d_compute_eigenv_, "m,lambda,vp")
FN(MMG3D_Free_allSols, mmg3d_free_allsols_, "mesh,sol")
FN(MMG3D_Free_solutions, mmg3d_free_solutions_, "mesh,sol")
FN(MMG3D_Get_adjaTet, mmg3d_get_adjatet_, "mesh,kel,listet")
FN(MMG3D_Get_edge, mmg3d_get_edge_, "mesh,e0,e1,ref,isRidge,isRequired")
FN(MMG3D_Get_edges, mmg3d_get_edges_, "mesh,edges,refs,areRidges,areRequired")
FN(MMG3D_Get_iparameter, mmg3d_get_iparameter_, "mesh,iparam")
FN(MMG3D_Get_ithSol_inSolsAtVertices, mmg3d_get_ithsol_insolsatvertices_, "sol,i,s,pos")
FN(MMG3D_Get_ithSols_inSolsAtVertices, mmg3d_get_ithsols_insolsatvertices_, "sol,i,s")
FN(MMG3D_Get_meshSize, mmg3d_get_meshsize_, "mesh,np,ne,nprism,nt,nquad,na")
FN(MMG3D_Get_nonBdyTriangle, mmg3d_get_nonbdytriangle_, "mesh,v0,v1,v2,ref,idx")
FN(MMG3D_Get_normalAtVertex, mmg3d_get_normalatvertex_, "mesh,k,n0,n1,n2")
FN(MMG3D_Get_numberOfNonBdyTriangles, mmg3d_get_numberofnonbdytriangles_, "mesh,nb_tria")
FN(MMG3D_Get_prism, mmg3d_get_prism_, "mesh,v0,v1,v2,v3,v4,v5,ref,isRequired")
FN(MMG3D_Get_prisms, mmg3d_get_prisms_, "mesh,prisms,refs,areRequired")
FN(MMG3D_Get_quadrilateral, mmg3d_get_quadrilateral_, "mesh,v0,v1,v2,v3,ref,isRequired")
FN(MMG3D_Get_quadrilaterals, mmg3d_get_quadrilaterals_, "mesh,quads,refs,areRequired")
FN(MMG3D_Get_scalarSol, mmg3d_get_scalarsol_, "met,s")
FN(MMG3D_Get_scalarSols, mmg3d_get_scalarsols_, "met,s")
FN(MMG3D_Get_solsAtVerticesSize, mmg3d_get_solsatverticessize_, "mesh,sol,nsols,nentities,typSol")
FN(MMG3D_Get_solSize, mmg3d_get_solsize_, "mesh,sol,typEntity,np,typSol")
FN(MMG3D_Get_tensorSol, mmg3d_get_tensorsol_, "met,m11,m12,m13,m22,m23,m33")
FN(MMG3D_Get_tensorSols, mmg3d_get_tensorsols_, "met,sols")
FN(MMG3D_Get_tetFromTria, mmg3d_get_tetfromtria_, "mesh,ktri,ktet,iface")
FN(MMG3D_Get_tetrahedra, mmg3d_get_tetrahedra_, "mesh,tetra,refs,areRequired")
FN(MMG3D_Get_tetrahedron, mmg3d_get_tetrahedron_, "mesh,v0,v1,v2,v3,ref,isRequired")
FN(MMG3D_Get_tetrahedronQuality, mmg3d_get_tetrahedronquality_, "mesh,met,k")
FN(MMG3D_Get_tetsFromTria, mmg3d_get_tetsfromtria_, "mesh,ktri,ktet,iface")
FN(MMG3D_Get_triangle, mmg3d_get_triangle_, "mesh,v0,v1,v2,ref,isRequired")
FN(MMG3D_Get_triangles, mmg3d_get_triangles_, "mesh,tria,refs,areRequired")
FN(MMG3D_Get_vectorSol, mmg3d_get_vectorsol_, "met,vx,vy,vz")
FN(MMG3D_Get_vectorSols, mmg3d_get_vectorsols_, "met,sols")
FN(MMG3D_Get_vertex, mmg3d_get_vertex_, "mesh,c0,c1,c2,ref,isCorner,isRequired")
FN(MMG3D_Get_vertices, mmg3d_get_vertices_, "mesh,vertices,refs,areCorners,areRequired")
FN(MMG3D_GetByIdx_vertex, mmg3d_getbyidx_vertex_, "mesh,c0,c1,c2,ref,isCorner,isRequired,idx")
FN(MMG3D_Init_parameters, mmg3d_init_parameters_, "mesh")
FN(MMG3D_loadAllSols, mmg3d_loadallsols_, "mesh,sol,filename")
FN(MMG3D_loadGenericMesh, mmg3d_loadgenericmesh_, "mesh,met,sol,filename")
FN(MMG3D_loadMesh, mmg3d_loadmesh_, "mesh,filename")
FN(MMG3D_loadMshMesh, mmg3d_loadmshmesh_, "mesh,sol,filename")
FN(MMG3D_loadMshMesh_and_allData, mmg3d_loadmshmesh_and_alldata_, "mesh,sol,filename")
FN(MMG3D_loadSol, mmg3d_loadsol_, "mesh,met,filename")
FN(MMG3D_mmg3dlib, mmg3d_mmg3dlib_, "mesh,met")
FN(MMG3D_mmg3dls, mmg3d_mmg3dls_, "mesh,sol,met")
FN(MMG3D_saveAllSols, mmg3d_saveallsols_, "mesh,sol,filename")
FN(MMG3D_saveGenericMesh, mmg3d_savegenericmesh_, "mesh,sol,filename")
FN(MMG3D_saveMesh, mmg3d_savemesh_, "mesh,filename")
FN(MMG3D_saveMshMesh, mmg3d_savemshmesh_, "mesh,sol,filename")
FN(MMG3D_saveMshMesh_and_allData, mmg3d_savemshmesh_and_alldata_, "mesh,sol,filename")
FN(MMG3D_saveSol, mmg3d_savesol_, "mesh,met,filename")
FN(MMG3D_saveTetgenMesh, mmg3d_savetetgenmesh_, "mesh,x")
FN(MMG3D_Set_constantSize, mmg3d_set_constantsize_, "mesh,met")
FN(MMG3D_Set_corner, mmg3d_set_corner_, "mesh,k")
FN(MMG3D_Set_dparameter, mmg3d_set_dparameter_, "mesh,sol,dparam,val")
FN(MMG3D_Set_edge, mmg3d_set_edge_, "mesh,v0,v1,ref,pos")
FN(MMG3D_Set_edges, mmg3d_set_edges_, "mesh,edges,refs")
FN(MMG3D_Set_handGivenMesh, mmg3d_set_handgivenmesh_, "mesh")
FN(MMG3D_Set_inputMeshName, mmg3d_set_inputmeshname_, "mesh,meshin")
FN(MMG3D_Set_inputParamName, mmg3d_set_inputparamname_, "mesh,fparamin")
FN(MMG3D_Set_inputSolName, mmg3d_set_inputsolname_, "mesh,sol,solin")
FN(MMG3D_Set_iparameter, mmg3d_set_iparameter_, "mesh,sol,iparam,val")
FN(MMG3D_Set_ithSol_inSolsAtVertices, mmg3d_set_ithsol_insolsatvertices_, "sol,i,s,pos")
FN(MMG3D_Set_ithSols_inSolsAtVertices, mmg3d_set_ithsols_insolsatvertices_, "sol,i,s")
FN(MMG3D_Set_localParameter, mmg3d_set_localparameter_, "mesh,sol,typ,ref,hmin,hmax,hausd")
FN(MMG3D_Set_lsBaseReference, mmg3d_set_lsbasereference_, "mesh,sol,br")
FN(MMG3D_Set_meshSize, mmg3d_set_meshsize_, "mesh,np,ne,nprism,nt,nquad,na")
FN(MMG3D_Set_multiMat, mmg3d_set_multimat_, "mesh,sol,ref,split,rmin,rplus")
FN(MMG3D_Set_normalAtVertex, mmg3d_set_normalatvertex_, "mesh,k,n0,n1,n2")
FN(MMG3D_Set_outputMeshName, mmg3d_set_outputmeshname_, "mesh,meshout")
FN(MMG3D_Set_outputSolName, mmg3d_set_outputsolname_, "mesh,sol,solout")
FN(MMG3D_Set_parallelTriangle, mmg3d_set_paralleltriangle_, "mesh,k")
FN(MMG3D_Set_parallelTriangles, mmg3d_set_paralleltriangles_, "mesh,parIdx,npar")
FN(MMG3D_Set_prism, mmg3d_set_prism_, "mesh,v0,v1,v2,v3,v4,v5,ref,pos")
FN(MMG3D_Set_prisms, mmg3d_set_prisms_, "mesh,prisms,refs")
FN(MMG3D_Set_quadrilateral, mmg3d_set_quadrilateral_, "mesh,v0,v1,v2,v3,ref,pos")
FN(MMG3D_Set_quadrilaterals, mmg3d_set_quadrilaterals_, "mesh,quads,refs")
FN(MMG3D_Set_requiredEdge, mmg3d_set_requirededge_, "mesh,k")
FN(MMG3D_Set_requiredTetrahedra, mmg3d_set_requiredtetrahedra_, "mesh,reqIdx,nreq")
FN(MMG3D_Set_requiredTetrahedron, mmg3d_set_requiredtetrahedron_, "mesh,k")
FN(MMG3D_Set_requiredTriangle, mmg3d_set_requiredtriangle_, "mesh,k")
FN(MMG3D_Set_requiredTriangles, mmg3d_set_requiredtriangles_, "mesh,reqIdx,nreq")
FN(MMG3D_Set_requiredVertex, mmg3d_set_requiredvertex_, "mesh,k")
FN(MMG3D_Set_ridge, mmg3d_set_ridge_, "mesh,k")
FN(MMG3D_Set_scalarSol, mmg3d_set_scalarsol_, "met,s,pos")
FN(MMG3D_Set_scalarSols, mmg3d_set_scalarsols_, "met,s")
FN(MMG3D_Set_solsAtVerticesSize, mmg3d_set_solsatverticessize_, "mesh,sol,nsols,nentities,typSol")
FN(MMG3D_Set_solSize, mmg3d_set_solsize_, "mesh,sol,typEntity,np,typSol")
FN(MMG3D_Set_tensorSol, mmg3d_set_tensorsol_, "met,m11,m12,m13,m22,m23,m33,pos")
FN(MMG3D_Set_tensorSols, mmg3d_set_tensorsols_, "met,sols")
FN(MMG3D_Set_tetrahedra, mmg3d_set_tetrahedra_, "mesh,tetra,refs")
FN(MMG3D_Set_tetrahedron, mmg3d_set_tetrahedron_, "mesh,v0,v1,v2,v3,ref,pos")
FN(MMG3D_Set_triangle, mmg3d_set_triangle_, "mesh,v0,v1,v2,ref,pos")
FN(MMG3D_Set_triangles, mmg3d_set_triangles_, "mesh,tria,refs")
FN(MMG3D_Set_vectorSol, mmg3d_set_vectorsol_, "met,vx,vy,vz,pos")
FN(MMG3D_Set_vectorSols, mmg3d_set_vectorsols_, "met,sols")
FN(MMG3D_Set_vertex, mmg3d_set_vertex_, "mesh,c0,c1,c2,ref,pos")
FN(MMG3D_Set_vertices, mmg3d_set_vertices_, "mesh,vertices,refs")
FN(MMG3D_setfunc, mmg3d_setfunc_, "mesh,met")
FN(MMG3D_Unset_corner, mmg3d_unset_corner_, "mesh,k")
FN(MMG3D_Unset_parallelTriangle, mmg3d_unset_paralleltriangle_, "mesh,k")
FN(MMG3D_Unset_parallelTriangles, mmg3d_unset_paralleltriangles_, "mesh,parIdx,npar")
FN(MMG3D_Unset_requiredEdge, mmg3d_unset_requirededge_, "mesh,k")
FN(MMG3D_Unset_requiredTetrahedra, mmg3d_unset_requiredtetrahedra_, "mesh,reqIdx,nreq")
FN(MMG3D_Unset_requiredTetrahedron, mmg3d_unset_requiredtetrahedron_, "mesh,k")
FN(MMG3D_Unset_requiredTriangle, mmg3d_unset_requiredtriangle_, "mesh,k")
FN(MMG3D_Unset_requiredTriangles, mmg3d_unset_requiredtriangles_, "mesh,reqIdx,nreq")
FN(MMG3D_Unset_requiredVertex, mmg3d_unset_requiredvertex_, "mesh,k")
FN(MMG3D_Unset_ridge, mmg3d_unset_ridge_, "mesh,k")
FN(MMG5_Init_fileNames, mmg5_init_filenames_, "mesh,sol")
FN(MMG5_mmgFree_names, mmg5_mmgfree_names_, "mesh,met")
FN(MMG5_scaleMesh, mmg5_scalemesh_, "mesh,met,ls")
FN(MMG5_Set_inputMeshName, mmg5_set_inputmeshname_, "mesh,meshin")
FN(MMG5_Set_inputSolName, mmg5_set_inputsolname_, "mesh,sol,solin")
FN(MMG5_Set_outputMeshName, mmg5_set_outputmeshname_, "mesh,meshout")
FN(MMG5_Set_outputSolName, mmg5_set_outputsolname_, "mesh,sol,solout")
FN(MMG5_unscaleMesh, mmg5_unscalemesh_, "mesh,met,ls")
FN(MMGS_Chk_meshData, mmgs_chk_meshdata_, "mesh,met")
FN(MMGS_Clean_isoSurf, mmgs_clean_isosurf_, "mesh")
FN(MMGS_Compute_eigenv, mmgs_compute_eigenv_, "m,lambda,vp")
FN(MMGS_Free_allSols, mmgs_free_allsols_, "mesh,sol")
FN(MMGS_Free_solutions, mmgs_free_solutions_, "mesh,sol")
FN(MMGS_Get_adjaTri, mmgs_get_adjatri_, "mesh,kel,listri")
FN(MMGS_Get_adjaVerticesFast, mmgs_get_adjaverticesfast_, "mesh,ip,start,lispoi")
FN(MMGS_Get_edge, mmgs_get_edge_, "mesh,e0,e1,ref,isRidge,isRequired")
FN(MMGS_Get_edges, mmgs_get_edges_, "mesh,edges,refs,areRidges,areRequired")
FN(MMGS_Get_iparameter, mmgs_get_iparameter_, "mesh,iparam")
FN(MMGS_Get_ithSol_inSolsAtVertices, mmgs_get_ithsol_insolsatvertices_, "sol,i,s,pos")
FN(MMGS_Get_ithSols_inSolsAtVertices, mmgs_get_ithsols_insolsatvertices_, "sol,i,s")
FN(MMGS_Get_meshSize, mmgs_get_meshsize_, "mesh,np,nt,na")
FN(MMGS_Get_nonBdyEdge, mmgs_get_nonbdyedge_, "mesh,e0,e1,ref,idx")
FN(MMGS_Get_normalAtVertex, mmgs_get_normalatvertex_, "mesh,k,n0,n1,n2")
FN(MMGS_Get_numberOfNonBdyEdges, mmgs_get_numberofnonbdyedges_, "mesh,nb_edges")
FN(MMGS_Get_scalarSol, mmgs_get_scalarsol_, "met,s")
FN(MMGS_Get_scalarSols, mmgs_get_scalarsols_, "met,s")
FN(MMGS_Get_solsAtVerticesSize, mmgs_get_solsatverticessize_, "mesh,sol,nsols,nentities,typSol")
FN(MMGS_Get_solSize, mmgs_get_solsize_, "mesh,sol,typEntity,np,typSol")
FN(MMGS_Get_tensorSol, mmgs_get_tensorsol_, "met,m11,m12,m13,m22,m23,m33")
FN(MMGS_Get_tensorSols, mmgs_get_tensorsols_, "met,sols")
FN(MMGS_Get_triangle, mmgs_get_triangle_, "mesh,v0,v1,v2,ref,isRequired")
FN(MMGS_Get_triangleQuality, mmgs_get_trianglequality_, "mesh,met,k")
FN(MMGS_Get_triangles, mmgs_get_triangles_, "mesh,tria,refs,areRequired")
FN(MMGS_Get_vectorSol, mmgs_get_vectorsol_, "met,vx,vy,vz")
FN(MMGS_Get_vectorSols, mmgs_get_vectorsols_, "met,sols")
FN(MMGS_Get_vertex, mmgs_get_vertex_, "mesh,c0,c1,c2,ref,isCorner,isRequired")
FN(MMGS_Get_vertices, mmgs_get_vertices_, "mesh,vertices,refs,areCorners,areRequired")
FN(MMGS_GetByIdx_vertex, mmgs_getbyidx_vertex_, "mesh,c0,c1,c2,ref,isCorner,isRequired,idx")
FN(MMGS_Init_parameters, mmgs_init_parameters_, "mesh")
FN(MMGS_loadAllSols, mmgs_loadallsols_, "mesh,sol,filename")
FN(MMGS_loadGenericMesh, mmgs_loadgenericmesh_, "mesh,met,sol,filename")
FN(MMGS_loadMesh, mmgs_loadmesh_, "mesh,filename")
FN(MMGS_loadMshMesh, mmgs_loadmshmesh_, "mesh,sol,filename")
FN(MMGS_loadMshMesh_and_allData, mmgs_loadmshmesh_and_alldata_, "mesh,sol,filename")
FN(MMGS_loadSol, mmgs_loadsol_, "mesh,met,filename")
FN(MMGS_mmgslib, mmgs_mmgslib_, "mesh,met")
FN(MMGS_mmgsls, mmgs_mmgsls_, "mesh,sol,met")
FN(MMGS_saveAllSols, mmgs_saveallsols_, "mesh,sol,filename")
FN(MMGS_saveGenericMesh, mmgs_savegenericmesh_, "mesh,sol,filename")
FN(MMGS_saveMesh, mmgs_savemesh_, "mesh,filename")
FN(MMGS_saveMshMesh, mmgs_savemshmesh_, "mesh,sol,filename")
FN(MMGS_saveSol, mmgs_savesol_, "mesh,met,filename")
FN(MMGS_Set_constantSize, mmgs_set_constantsize_, "mesh,met")
FN(MMGS_Set_corner, mmgs_set_corner_, "mesh,k")
FN(MMGS_Set_dparameter, mmgs_set_dparameter_, "mesh,sol,dparam,val")
FN(MMGS_Set_edge, mmgs_set_edge_, "mesh,v0,v1,ref,pos")
FN(MMGS_Set_edges, mmgs_set_edges_, "mesh,edges,refs")
FN(MMGS_Set_inputMeshName, mmgs_set_inputmeshname_, "mesh,meshin")
FN(MMGS_Set_inputParamName, mmgs_set_inputparamname_, "mesh,fparamin")
FN(MMGS_Set_inputSolName, mmgs_set_inputsolname_, "mesh,sol,solin")
FN(MMGS_Set_iparameter, mmgs_set_iparameter_, "mesh,sol,iparam,val")
FN(MMGS_Set_ithSol_inSolsAtVertices, mmgs_set_ithsol_insolsatvertices_, "sol,i,s,pos")
FN(MMGS_Set_ithSols_inSolsAtVertices, mmgs_set_ithsols_insolsatvertices_, "sol,i,s")
FN(MMGS_Set_localParameter, mmgs_set_localparameter_, "mesh,sol,typ,ref,hmin,hmax,hausd")
FN(MMGS_Set_lsBaseReference, mmgs_set_lsbasereference_, "mesh,sol,br")
FN(MMGS_Set_meshSize, mmgs_set_meshsize_, "mesh,np,nt,na")
FN(MMGS_Set_multiMat, mmgs_set_multimat_, "mesh,sol,ref,split,rmin,rplus")
FN(MMGS_Set_normalAtVertex, mmgs_set_normalatvertex_, "mesh,k,n0,n1,n2")
FN(MMGS_Set_outputMeshName, mmgs_set_outputmeshname_, "mesh,meshout")
FN(MMGS_Set_outputSolName, mmgs_set_outputsolname_, "mesh,sol,solout")
FN(MMGS_Set_requiredEdge, mmgs_set_requirededge_, "mesh,k")
FN(MMGS_Set_requiredTriangle, mmgs_set_requiredtriangle_, "mesh,k")
FN(MMGS_Set_requiredVertex, mmgs_set_requiredvertex_, "mesh,k")
FN(MMGS_Set_ridge, mmgs_set_ridge_, "mesh,k")
FN(MMGS_Set_scalarSol, mmgs_set_scalarsol_, "met,s,pos")
FN(MMGS_Set_scalarSols, mmgs_set_scalarsols_, "met,s")
FN(MMGS_Set_solsAtVerticesSize, mmgs_set_solsatverticessize_, "mesh,sol,nsols,nentities,typSol")
FN(MMGS_Set_solSize, mmgs_set_solsize_, "mesh,sol,typEntity,np,typSol")
FN(MMGS_Set_tensorSol, mmgs_set_tensorsol_, "met,m11,m12,m13,m22,m23,m33,pos")
FN(MMGS_Set_tensorSols, mmgs_set_tensorsols_, "met,sols")
FN(MMGS_Set_triangle, mmgs_set_triangle_, "mesh,v0,v1,v2,ref,pos")
FN(MMGS_Set_triangles, mmgs_set_triangles_, "mesh,tria,refs")
FN(MMGS_Set_vectorSol, mmgs_set_vectorsol_, "met,vx,vy,vz,pos")
FN(MMGS_Set_vectorSols, mmgs_set_vectorsols_, "met,sols")
FN(MMGS_Set_vertex, mmgs_set_vertex_, "mesh,c0,c1,c2,ref,pos")
FN(MMGS_Set_vertices, mmgs_set_vertices_, "mesh,vertices,refs")
FN(MMGS_setfunc, mmgs_setfunc_, "mesh,met")
FN(MMGS_Unset_corner, mmgs_unset_corner_, "mesh,k")
FN(MMGS_Unset_requiredEdge, mmgs_unset_requirededge_, "mesh,k")
FN(MMGS_Unset_requiredTriangle, mmgs_unset_requiredtriangle_, "mesh,k")
FN(MMGS_Unset_requiredVertex, mmgs_unset_requiredvertex_, "mesh,k")
FN(MMGS_Unset_ridge, mmgs_unset_ridge_, "mesh,k")
