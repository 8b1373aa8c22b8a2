/* forced first include of the cbmc preprocessing step */
