F="src/oifitslib/oifilter.c"
COMMON='''
static oi_fits D, O; static oi_filter_spec spec;
static void mkwave(int nw){ oi_wavelength *w=chkmalloc(sizeof *w); memset(w,0,sizeof *w); w->revision=2; strcpy(w->insname,"INS"); alloc_oi_wavelength(w,nw);
 for(int i=0;i<nw;i++){w->eff_wave[i]=1e-6*(1+i); w->eff_band[i]=1e-7;} D.wavelengthList=g_list_append(D.wavelengthList,w); D.numWavelength++; g_hash_table_insert(D.wavelengthHash,w->insname,w);}
static void base(int nw){ QUIET(); init_oi_fits(&D); alloc_oi_target(&D.targets,2); memset(D.targets.targ,0,2*sizeof(target)); D.targets.revision=2; D.targets.usecategory=FALSE;
 D.targets.targ[0].target_id=1; strcpy(D.targets.targ[0].target,"T1"); D.targets.targ[1].target_id=2; strcpy(D.targets.targ[1].target,"T2"); mkwave(nw); init_oi_filter(&spec);}
static oi_t3 *mkt3(int nr,int nw){ oi_t3 *t=chkmalloc(sizeof *t); memset(t,0,sizeof *t); t->revision=2; strcpy(t->insname,"INS"); alloc_oi_t3(t,nr,nw);
 for(int i=0;i<nr;i++){ t->record[i].target_id=1; t->record[i].time=0; t->record[i].mjd=50000+i; t->record[i].int_time=1; t->record[i].u1coord=10; t->record[i].v1coord=0; t->record[i].u2coord=10; t->record[i].v2coord=0;
  for(int j=0;j<3;j++) t->record[i].sta_index[j]=j+1;
  for(int j=0;j<nw;j++){ t->record[i].t3amp[j]=1+j; t->record[i].t3amperr[j]=0.1; t->record[i].t3phi[j]=j; t->record[i].t3phierr[j]=1; t->record[i].flag[j]=0; } }
 D.t3List=g_list_append(D.t3List,t); D.numT3++; return t; }
static oi_vis *mkvis(int nr,int nw,int refmap){ oi_vis *t=chkmalloc(sizeof *t); memset(t,0,sizeof *t); t->revision=2; strcpy(t->insname,"INS"); t->usevisrefmap=refmap; t->usecomplex=FALSE; alloc_oi_vis(t,nr,nw); t->usevisrefmap=refmap; if(refmap) for(int i=0;i<nr;i++) t->record[i].visrefmap=chkmalloc(nw*nw*sizeof(BOOL));
 for(int i=0;i<nr;i++){ t->record[i].target_id=1; t->record[i].time=0; t->record[i].mjd=50000+i; t->record[i].int_time=1; t->record[i].ucoord=10; t->record[i].vcoord=0; t->record[i].sta_index[0]=1; t->record[i].sta_index[1]=2;
  for(int j=0;j<nw;j++){ t->record[i].visamp[j]=1+j; t->record[i].visamperr[j]=0.1; t->record[i].visphi[j]=j; t->record[i].visphierr[j]=1; t->record[i].flag[j]=0; }
  if(refmap) for(int j=0;j<nw*nw;j++) t->record[i].visrefmap[j]=(j%3)==1; }
 D.visList=g_list_append(D.visList,t); D.numVis++; return t; }
static oi_vis2 *mkvis2(int nr,int nw){ oi_vis2 *t=chkmalloc(sizeof *t); memset(t,0,sizeof *t); t->revision=2; strcpy(t->insname,"INS"); alloc_oi_vis2(t,nr,nw);
 for(int i=0;i<nr;i++){ t->record[i].target_id=1; t->record[i].time=0; t->record[i].mjd=50000+i; t->record[i].int_time=1; t->record[i].ucoord=10; t->record[i].vcoord=0; t->record[i].sta_index[0]=1; t->record[i].sta_index[1]=2;
  for(int j=0;j<nw;j++){ t->record[i].vis2data[j]=1+j; t->record[i].vis2err[j]=0.1; t->record[i].flag[j]=0; } }
 D.vis2List=g_list_append(D.vis2List,t); D.numVis2++; return t; }
static oi_inspol *mkpol(int nr,int nw,const char *arr){ oi_inspol *t=chkmalloc(sizeof *t); memset(t,0,sizeof *t); t->revision=1; strcpy(t->arrname,arr); alloc_oi_inspol(t,nr,nw);
 for(int i=0;i<nr;i++){ t->record[i].target_id=1; strcpy(t->record[i].insname,"INS"); t->record[i].mjd_obs=50000; t->record[i].mjd_end=50001; t->record[i].sta_index=1;
  for(int j=0;j<nw;j++){ t->record[i].jxx[j]=j; t->record[i].jyy[j]=j+10; t->record[i].jxy[j]=j+20; t->record[i].jyx[j]=j+30; } }
 D.inspolList=g_list_append(D.inspolList,t); D.numInspol++; return t; }
static oi_array *mkarr(const char *nm,int n){ oi_array *a=chkmalloc(sizeof *a); memset(a,0,sizeof *a); a->revision=2; strcpy(a->arrname,nm); alloc_oi_array(a,n); memset(a->elem,0,n*sizeof(element));
 for(int i=0;i<n;i++){a->elem[i].sta_index=i+1; sprintf(a->elem[i].sta_name,"S%d",i+1); a->elem[i].staxyz[0]=i; a->elem[i].diameter=1; strcpy(a->elem[i].fovtype,"FWHM");}
 D.arrayList=g_list_append(D.arrayList,a); D.numArray++; g_hash_table_insert(D.arrayHash,a->arrname,a); return a; }
'''
SEEDS=[
dict(id="p01-t3-ac-baseline",property="P01",file=F,
 old='''    bas = pow((u1 + u2) * (u1 + u2) + (v1 + v2) * (v1 + v2), 0.5);
    if (bas < pFilter->bas_range[0] || bas > pFilter->bas_range[1])
      continue; /* skip record as projected baseline ac out of range */''',
 new='''    bas = pow((u1 - u2) * (u1 - u2) + (v1 - v2) * (v1 - v2), 0.5);
    if (bas > pFilter->bas_range[1])
      continue; /* skip record as projected baseline ac out of range */''',
 needs="a triple product whose closing baseline alone lies outside the requested range",
 breaks="records with an out-of-range third baseline are kept",
 demo=COMMON+'''int main(){ base(1); oi_t3 *t=mkt3(2,1); t->record[1].u2coord=-10; t->record[1].v2coord=5; spec.bas_range[0]=1; spec.bas_range[1]=15;
 apply_oi_filter(&D,&spec,&O); EXPECT(O.numT3==1); oi_t3 *o=O.t3List->data; EXPECT(o->numrec==1); EXPECT(o->record[0].mjd==50001); return 0; }'''),
dict(id="p02-visrefmap-stride",property="P02",file=F,
 old='''                pInRec->visrefmap[l + j * nwaveIn];''',new='''                pInRec->visrefmap[l + j * nwaveOut];''',
 needs="a VISREFMAP table filtered by a wavelength range that removes channels",
 breaks="the reference map of the filtered table mixes up rows",
 demo=COMMON+'''int main(){ base(3); oi_vis *t=mkvis(1,3,TRUE); for(int i=0;i<9;i++) t->record[0].visrefmap[i]=(i==8||i==5); spec.wave_range[0]=1.5e-6; spec.wave_range[1]=1;
 apply_oi_filter(&D,&spec,&O); oi_vis *o=O.visList->data; EXPECT(o->nwave==2); EXPECT(!o->record[0].visrefmap[0]); EXPECT(o->record[0].visrefmap[1]); EXPECT(!o->record[0].visrefmap[2]); EXPECT(o->record[0].visrefmap[3]); return 0; }'''),
dict(id="p03-t3-phase-snr",property="P03",file=F,
 old='''        else if (pFilter->accept_t3phi && (snrPhi < pFilter->snr_range[0] ||''',
 new='''        else if (pFilter->accept_t3phi && !pFilter->accept_t3amp && (snrPhi < pFilter->snr_range[0] ||''',
 needs="a triple product with good amplitude SNR but bad phase SNR, next to a good channel",
 breaks="a datum whose closure phase SNR is out of range is not flagged",
 demo=COMMON+'''int main(){ base(2); oi_t3 *t=mkt3(1,2); t->record[0].t3phierr[1]=50; spec.snr_range[0]=2; spec.snr_range[1]=1e6;
 apply_oi_filter(&D,&spec,&O); oi_t3 *o=O.t3List->data; EXPECT(!o->record[0].flag[0]); EXPECT(o->record[0].flag[1]); return 0; }'''),
dict(id="p06-unsorted-mjd",property="P06",file="src/oifitslib/oiiter.c",
 old="""    if (!(NEXT_CHANNEL(pIter, oi_t3) || NEXT_RECORD(pIter, oi_t3) ||
          NEXT_TABLE(pIter, oi_t3)))
      goto finally;
""",new="""    /* skip rest of table once past the end of the selected time range */
    if (pIter->link != NULL && pIter->iwave >= 0 &&
        ((oi_t3 *)pIter->link->data)->record[pIter->irec].mjd >
            pIter->filter.mjd_range[1])
    {
      pIter->irec = ((oi_t3 *)pIter->link->data)->numrec - 1;
      pIter->iwave = ((oi_t3 *)pIter->link->data)->nwave - 1;
    }
    if (!(NEXT_CHANNEL(pIter, oi_t3) || NEXT_RECORD(pIter, oi_t3) ||
          NEXT_TABLE(pIter, oi_t3)))
      goto finally;
""",
 needs="a table whose records are not in time order, one of them later than the requested time range",
 breaks="the triple product iterator misses records that follow one past the time range",
 demo=COMMON+"""int main(){ base(2); oi_t3 *t=mkt3(3,2); t->record[1].mjd=60000; spec.mjd_range[0]=0; spec.mjd_range[1]=55000; oi_t3_iter it; oi_t3_iter_init(&it,&D,&spec);
 int ev; oi_t3 *tab; long ir; oi_t3_record *r; int iw; int n=0; long seq[16]; while(oi_t3_iter_next(&it,&ev,&tab,&ir,&r,&iw)&&n<10) seq[n++]=ir*10+iw;
 EXPECT(n==4); EXPECT(seq[0]==0&&seq[1]==1&&seq[2]==20&&seq[3]==21); return 0; }"""),
dict(id="p23-leap",property="P23",file="src/oifitslib/datemjd.c",
 old='''  I = 4000 * (L + 1) / 1461001;''',new='''  I = 4000 * (L + 1) / 1461000;''',
 needs="29 February of a leap year",
 breaks="some days convert back to a different calendar date",
 demo='''int main(){ for(long m=20000;m<80000;m++){ long y,mo,d; mjd2date(m,&y,&mo,&d); EXPECT(y>=1901&&y<=2099); EXPECT(date2mjd(y,mo,d)==m); EXPECT(mo>=1&&mo<=12&&d>=1&&d<=31);} return 0; }'''),
dict(id="p22-inspol-jyx",property="P22",file="src/oifitslib/oifile.c",
 old='''    MEMDUP(pOutRec->jyx, pInRec->jyx,''',new='''    MEMDUP(pOutRec->jyx, pInRec->jxy,''',
 needs="a polarisation table with different cross terms",
 breaks="a duplicated polarisation table has JYX replaced by JXY",
 demo=COMMON+'''int main(){ base(2); oi_inspol *p=mkpol(2,2,"A"); oi_inspol *q=dup_oi_inspol(p); for(int i=0;i<2;i++) for(int j=0;j<2;j++){ EXPECT(q->record[i].jyx[j]==p->record[i].jyx[j]); EXPECT(q->record[i].jxy[j]==p->record[i].jxy[j]); } return 0; }'''),
dict(id="p26-t3-time",property="P26",file="src/oifitslib/oifile.c",
 old='''      pTab->record[i].time = 0.0;''',nth=3,
 new='''      if (pTab->record[i].time > 0.0) pTab->record[i].time = 0.0;''',
 needs="an OI_T3 version 1 record with a negative TIME",
 breaks="upgrading leaves the time of some records nonzero",
 demo=COMMON+'''int main(){ base(1); oi_t3 *t=mkt3(2,1); t->revision=1; t->record[0].time=5; t->record[1].time=-3; upgrade_oi_t3(t); EXPECT(t->revision==2); EXPECT(t->record[0].time==0); EXPECT(t->record[1].time==0); return 0; }'''),
dict(id="p08-inspol-target",property="P08",file="src/oifitslib/oimerge.c",
 old='''      REPLACE_TARGET_ID(pOutTab, pInput, targetIdHash);
      for (i = 0; i < pOutTab->numrec; i++)''',
 new='''      if (pInput->targets.ntarget != pOutput->targets.ntarget)
        REPLACE_TARGET_ID(pOutTab, pInput, targetIdHash);
      for (i = 0; i < pOutTab->numrec; i++)''',
 needs="polarisation tables in inputs that list the same targets under different ids",
 breaks="merged polarisation records refer to the wrong target",
 demo=COMMON+'''int main(){ base(1); oi_fits E; mkpol(2,1,"A"); mkarr("A",2); E=D; base(1); mkpol(2,1,"A"); mkarr("A",2); strcpy(D.targets.targ[0].target,"T2"); strcpy(D.targets.targ[1].target,"T1"); oi_inspol *p=D.inspolList->data; p->record[1].target_id=2;
 GList *l=g_list_append(NULL,&E); l=g_list_append(l,&D); merge_oi_fits_list(l,&O); EXPECT(O.targets.ntarget==2); oi_inspol *q=O.inspolList->next->data; EXPECT(!strcmp(oi_fits_lookup_target(&O,q->record[0].target_id)->target,"T2")); EXPECT(!strcmp(oi_fits_lookup_target(&O,q->record[1].target_id)->target,"T1")); return 0; }'''),
dict(id="p09-wave-tolerance",property="P09",file="src/oifitslib/oimerge.c",
 old='''        if (fabs(pCmp->eff_wave[i] - pWave->eff_wave[i]) >= tol ||
            fabs(pCmp->eff_band[i] - pWave->eff_band[i]) >= tol)
          break;''',
 new='''        if (fabs(pCmp->eff_wave[i] - pWave->eff_wave[i]) >= tol ||
            fabs(pCmp->eff_band[0] - pWave->eff_band[0]) >= tol)
          break;''',
 needs="two wavelength tables with equal wavelengths that differ in a bandwidth other than the first",
 breaks="data of the second input refer to a wavelength table with other bandwidths",
 demo=COMMON+'''int main(){ base(2); oi_fits E; mkvis2(1,2); E=D; base(2); mkvis2(1,2); oi_wavelength *w=D.wavelengthList->data; w->eff_band[1]=3e-7;
 GList *l=g_list_append(NULL,&E); l=g_list_append(l,&D); merge_oi_fits_list(l,&O); oi_vis2 *q=O.vis2List->next->data; EXPECT(oi_fits_lookup_wavelength(&O,q->insname)->eff_band[1]==3e-7f); return 0; }'''),
dict(id="p17-element-index",property="P17",file="src/oifitslib/oifile.c",
 old='''    if (pArray->elem[i].sta_index == staIndex) return &pArray->elem[i];''',
 new='''    if (pArray->elem[i].sta_index == staIndex) return &pArray->elem[i];
    if (pArray->elem[i].sta_index > staIndex) break;''',
 needs="an array table whose stations are not in ascending order of index",
 breaks="an existing station is reported as missing",
 demo=COMMON+'''int main(){ base(1); oi_array *a=mkarr("A",3); a->elem[0].sta_index=3; a->elem[1].sta_index=1; a->elem[2].sta_index=2; EXPECT(oi_fits_lookup_element(&D,"A",1)==&a->elem[1]); EXPECT(oi_fits_lookup_element(&D,"A",2)==&a->elem[2]); EXPECT(oi_fits_lookup_element(&D,"A",4)==NULL); return 0; }'''),
]
