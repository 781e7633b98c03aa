// Numeric punctuation of locales as glibc 2.39 defines them (from /usr/share/i18n/locales: LC_NUMERIC of each; written once, not from strf).
// name, groups (low to high, the last repeats; 0 ends), decimal point, thousands separator (0: no grouping)
#define LOCALES(X) \
  X(C, 0, 0, 0, 0, 0x2E, 0x0) \
  X(POSIX, 0, 0, 0, 0, 0x2E, 0x0) \
  X(aa_DJ, 0, 0, 0, 0, 0x2E, 0x0) \
  X(aa_ER, 0, 0, 0, 0, 0x2E, 0x0) \
  X(aa_ET, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(af_ZA, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(agr_PE, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(ak_GH, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(am_ET, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(an_ES, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(anp_IN, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(ar_AE, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(ar_BH, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(ar_DZ, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(ar_EG, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(ar_IN, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(ar_IQ, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(ar_JO, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(ar_KW, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(ar_LB, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(ar_LY, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(ar_MA, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(ar_OM, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(ar_QA, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(ar_SA, 0, 0, 0, 0, 0x2E, 0x0) \
  X(ar_SD, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(ar_SS, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(ar_SY, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(ar_TN, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(ar_YE, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(as_IN, 3, 2, 0, 0, 0x2E, 0x2C) \
  X(ast_ES, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(ayc_PE, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(az_AZ, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(az_IR, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(be_BY, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(bem_ZM, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(ber_DZ, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(ber_MA, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(bhb_IN, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(bho_IN, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(bho_NP, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(bi_VU, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(bn_BD, 3, 2, 0, 0, 0x2E, 0x2C) \
  X(bn_IN, 3, 2, 0, 0, 0x2E, 0x2C) \
  X(bo_CN, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(bo_IN, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(br_FR, 3, 0, 0, 0, 0x2C, 0x202F) \
  X(brx_IN, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(bs_BA, 0, 0, 0, 0, 0x2C, 0x0) \
  X(byn_ER, 0, 0, 0, 0, 0x2E, 0x0) \
  X(ce_RU, 3, 0, 0, 0, 0x2C, 0x202F) \
  X(chr_US, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(ckb_IQ, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(cmn_TW, 4, 0, 0, 0, 0x2E, 0x2C) \
  X(crh_UA, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(cs_CZ, 3, 0, 0, 0, 0x2C, 0x202F) \
  X(csb_PL, 3, 0, 0, 0, 0x2C, 0x202F) \
  X(cv_RU, 3, 0, 0, 0, 0x2C, 0x202F) \
  X(cy_GB, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(da_DK, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(de_AT, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(de_BE, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(de_DE, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(de_IT, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(de_LU, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(doi_IN, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(dv_MV, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(dz_BT, 3, 2, 0, 0, 0x2E, 0x2C) \
  X(el_CY, 0, 0, 0, 0, 0x2C, 0x0) \
  X(el_GR, 0, 0, 0, 0, 0x2C, 0x0) \
  X(en_AG, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(en_AU, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(en_BW, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(en_CA, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(en_DK, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(en_GB, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(en_HK, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(en_IE, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(en_IL, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(en_IN, 3, 2, 0, 0, 0x2E, 0x2C) \
  X(en_NG, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(en_NZ, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(en_PH, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(en_SC, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(en_SG, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(en_US, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(en_ZA, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(en_ZM, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(en_ZW, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(eo, 0, 0, 0, 0, 0x2C, 0x0) \
  X(eo_US, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(es_AR, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(es_BO, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(es_CL, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(es_CO, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(es_CR, 3, 0, 0, 0, 0x2C, 0x202F) \
  X(es_CU, 0, 0, 0, 0, 0x2C, 0x0) \
  X(es_DO, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(es_EC, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(es_ES, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(es_GT, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(es_HN, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(es_MX, 3, 0, 0, 0, 0x2E, 0x202F) \
  X(es_NI, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(es_PA, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(es_PE, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(es_PR, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(es_PY, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(es_SV, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(es_US, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(es_UY, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(es_VE, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(et_EE, 3, 0, 0, 0, 0x2C, 0x202F) \
  X(eu_ES, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(eu_FR, 3, 0, 0, 0, 0x2C, 0x202F) \
  X(fa_IR, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(ff_SN, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(fi_FI, 3, 0, 0, 0, 0x2C, 0x202F) \
  X(fil_PH, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(fo_FO, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(fr_BE, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(fr_CA, 3, 0, 0, 0, 0x2C, 0x202F) \
  X(fr_FR, 3, 0, 0, 0, 0x2C, 0x202F) \
  X(fr_LU, 3, 0, 0, 0, 0x2C, 0x202F) \
  X(fur_IT, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(fy_DE, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(ga_IE, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(gd_GB, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(gez_ER, 0, 0, 0, 0, 0x2E, 0x0) \
  X(gez_ET, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(gl_ES, 0, 0, 0, 0, 0x2C, 0x0) \
  X(gu_IN, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(gv_GB, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(ha_NG, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(hak_TW, 4, 0, 0, 0, 0x2E, 0x2C) \
  X(he_IL, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(hi_IN, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(hif_FJ, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(hne_IN, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(hsb_DE, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(ht_HT, 3, 0, 0, 0, 0x2C, 0x202F) \
  X(hu_HU, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(hy_AM, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(ia_FR, 3, 0, 0, 0, 0x2C, 0x202F) \
  X(id_ID, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(ig_NG, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(ik_CA, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(is_IS, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(it_IT, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(iu_CA, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(ja_JP, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(ka_GE, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(kk_KZ, 3, 0, 0, 0, 0x2C, 0x202F) \
  X(kl_GL, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(km_KH, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(kn_IN, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(ko_KR, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(kok_IN, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(ks_IN, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(ku_TR, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(kw_GB, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(ky_KG, 3, 0, 0, 0, 0x2C, 0x202F) \
  X(lb_LU, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(lg_UG, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(li_BE, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(lij_IT, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(lo_LA, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(lt_LT, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(lv_LV, 3, 0, 0, 0, 0x2C, 0x202F) \
  X(lzh_TW, 4, 0, 0, 0, 0x2E, 0x2C) \
  X(mag_IN, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(mai_IN, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(mai_NP, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(mfe_MU, 3, 0, 0, 0, 0x2E, 0x202F) \
  X(mg_MG, 0, 0, 0, 0, 0x2C, 0x0) \
  X(mhr_RU, 3, 0, 0, 0, 0x2C, 0x202F) \
  X(mi_NZ, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(miq_NI, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(mjw_IN, 3, 2, 0, 0, 0x2E, 0x2C) \
  X(mk_MK, 3, 0, 0, 0, 0x2C, 0x202F) \
  X(ml_IN, 3, 2, 0, 0, 0x2E, 0x2C) \
  X(mn_MN, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(mni_IN, 3, 2, 0, 0, 0x2E, 0x2C) \
  X(mr_IN, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(ms_MY, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(mt_MT, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(my_MM, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(nan_TW, 4, 0, 0, 0, 0x2E, 0x2C) \
  X(nb_NO, 3, 0, 0, 0, 0x2C, 0x202F) \
  X(nds_DE, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(ne_NP, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(nhn_MX, 3, 0, 0, 0, 0x2E, 0x202F) \
  X(niu_NU, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(niu_NZ, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(nl_BE, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(nn_NO, 3, 0, 0, 0, 0x2C, 0x202F) \
  X(nr_ZA, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(nso_ZA, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(oc_FR, 3, 0, 0, 0, 0x2C, 0x202F) \
  X(om_ET, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(om_KE, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(or_IN, 3, 2, 0, 0, 0x2E, 0x2C) \
  X(os_RU, 3, 0, 0, 0, 0x2C, 0x202F) \
  X(pa_IN, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(pa_PK, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(pap_AW, 0, 0, 0, 0, 0x2C, 0x0) \
  X(pap_CW, 0, 0, 0, 0, 0x2C, 0x0) \
  X(pl_PL, 3, 0, 0, 0, 0x2C, 0x202F) \
  X(ps_AF, 3, 0, 0, 0, 0x66B, 0x66C) \
  X(pt_BR, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(pt_PT, 0, 0, 0, 0, 0x2C, 0x0) \
  X(quz_PE, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(raj_IN, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(ro_RO, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(ru_RU, 3, 0, 0, 0, 0x2C, 0x202F) \
  X(ru_UA, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(rw_RW, 0, 0, 0, 0, 0x2C, 0x0) \
  X(sa_IN, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(sat_IN, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(sc_IT, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(sd_IN, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(sd_PK, 3, 2, 0, 0, 0x2E, 0x2C) \
  X(se_NO, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(sgs_LT, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(shn_MM, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(shs_CA, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(si_LK, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(sid_ET, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(sk_SK, 3, 0, 0, 0, 0x2C, 0x202F) \
  X(sl_SI, 0, 0, 0, 0, 0x2C, 0x0) \
  X(sm_WS, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(so_DJ, 0, 0, 0, 0, 0x2E, 0x0) \
  X(so_ET, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(so_KE, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(so_SO, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(sq_AL, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(sq_MK, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(sr_ME, 0, 0, 0, 0, 0x2C, 0x0) \
  X(sr_RS, 0, 0, 0, 0, 0x2C, 0x0) \
  X(ss_ZA, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(st_ZA, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(sv_FI, 3, 0, 0, 0, 0x2C, 0x202F) \
  X(sv_SE, 3, 0, 0, 0, 0x2C, 0x202F) \
  X(sw_KE, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(sw_TZ, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(szl_PL, 3, 0, 0, 0, 0x2C, 0x202F) \
  X(ta_IN, 3, 2, 0, 0, 0x2E, 0x2C) \
  X(ta_LK, 3, 2, 0, 0, 0x2E, 0x2C) \
  X(tcy_IN, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(te_IN, 3, 2, 0, 0, 0x2E, 0x2C) \
  X(tg_TJ, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(th_TH, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(the_NP, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(ti_ER, 0, 0, 0, 0, 0x2E, 0x0) \
  X(ti_ET, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(tig_ER, 0, 0, 0, 0, 0x2E, 0x0) \
  X(tk_TM, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(tl_PH, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(tn_ZA, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(to_TO, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(tpi_PG, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(tr_CY, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(tr_TR, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(ts_ZA, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(tt_RU, 3, 0, 0, 0, 0x2C, 0x202F) \
  X(tt_RU_iqtelif, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(ug_CN, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(uk_UA, 3, 0, 0, 0, 0x2C, 0x202F) \
  X(unm_US, 2, 2, 2, 3, 0x2E, 0x202F) \
  X(ur_IN, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(ur_PK, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(ve_ZA, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(vi_VN, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(wa_BE, 3, 0, 0, 0, 0x2C, 0x2E) \
  X(wal_ET, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(wo_SN, 0, 0, 0, 0, 0x2C, 0x0) \
  X(xh_ZA, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(yi_US, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(yo_NG, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(yue_HK, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(yuw_PG, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(zh_CN, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(zh_HK, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(zh_SG, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(zh_TW, 3, 0, 0, 0, 0x2E, 0x2C) \
  X(zu_ZA, 3, 0, 0, 0, 0x2E, 0x2C) \
  /* end */
